//! The interactive application under a simulated user, window system and clock.
use crate::rng::{Rng, fnv, mix};
use crate::seams;
use crate::world::{Stats, Verdict};
use cavalier_contours::polyline::{PlineSource, PlineSourceMut, Polyline};
use cavalier_contours_ui::MainApp;
use cavalier_contours::shape_algorithms::{Shape, ShapeOffsetOptions};
use cavalier_contours_ui::sim::{AppState, SceneState, take_transform};
use eframe::App;
use egui::accesskit;
use egui::{Event, Pos2, Rect, Vec2, pos2, vec2};
use egui_plot::{PlotPoint, PlotTransform};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Target {
    /// n-th vertex of the scene shown, displaced by points
    Vertex(u32, f32, f32),
    /// fraction of the window
    Frac(f32, f32),
    /// fraction of the plot
    Plot(f32, f32),
    /// n-th widget assistive technology can see, at a fraction of its width
    Widget(u32, f32),
    Named(String),
    /// n-th number of the application, at a fraction of its width
    Number(u32, f32),
    /// relative to the pointer
    By(f32, f32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ev {
    Move(Target),
    Press(u8),
    Release(u8),
    Wheel(f32, f32, u8),
    Pinch(f32),
    Key(u8, u8),
    Text(String),
    Resize(f32, f32),
    Focus(bool),
    Gone,
    Ppp(f32),
    /// an assistive technology operates a widget: 0 click, 1 focus, 2 increment, 3 decrement, 4 set value
    Assist(Target, u8, f64),
    Touch(u8, u8, Target),
    Theme(bool),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Drop,
    Dup,
    Delay(u8),
    Swap,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    E(Ev, Fault),
    Frame(u32),
    Settle,
    Restart(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub hash: u64,
    pub w: f32,
    pub h: f32,
    pub ppp: f32,
    pub ops: Vec<Op>,
}

const KEYS: [egui::Key; 18] = [
    egui::Key::Tab,
    egui::Key::Space,
    egui::Key::Enter,
    egui::Key::Escape,
    egui::Key::ArrowLeft,
    egui::Key::ArrowRight,
    egui::Key::ArrowUp,
    egui::Key::ArrowDown,
    egui::Key::Backspace,
    egui::Key::Delete,
    egui::Key::A,
    egui::Key::Plus,
    egui::Key::Minus,
    egui::Key::Num0,
    egui::Key::Home,
    egui::Key::End,
    egui::Key::Z,
    egui::Key::F1,
];

const BUTTONS: [egui::PointerButton; 5] = [
    egui::PointerButton::Primary,
    egui::PointerButton::Secondary,
    egui::PointerButton::Middle,
    egui::PointerButton::Extra1,
    egui::PointerButton::Extra2,
];

fn mods(m: u8) -> egui::Modifiers {
    egui::Modifiers {
        alt: m & 1 != 0,
        ctrl: m & 2 != 0,
        shift: m & 4 != 0,
        mac_cmd: false,
        command: m & 2 != 0,
    }
}

// ---------------------------------------------------------------------------------- simulator

/// What a frame hands to the application.
#[derive(Clone, Debug)]
enum In {
    E(Event),
    Size(f32, f32),
    Ppp(f32),
    Focus(bool),
    Theme(bool),
}

#[derive(Default, Clone)]
struct Disk(BTreeMap<String, String>);
impl eframe::Storage for Disk {
    fn get_string(&self, key: &str) -> Option<String> {
        self.0.get(key).cloned()
    }
    fn set_string(&mut self, key: &str, value: String) {
        self.0.insert(key.into(), value);
    }
    fn flush(&mut self) {}
}

struct Node {
    id: accesskit::NodeId,
    label: String,
    rect: Rect,
    operable: bool,
    number: bool,
}

struct Sim {
    ctx: egui::Context,
    app: MainApp,
    frame: eframe::Frame,
    disk: Option<Disk>,
    time: f64,
    w: f32,
    h: f32,
    ppp: f32,
    focused: bool,
    theme: Option<egui::Theme>,
    at: Option<Pos2>,
    transform: Option<PlotTransform>,
    painted: Vec<Drawn>,
    nodes: Vec<Node>,
    repaint: f64,
    frames: u64,
    digest: u64,
}

#[derive(Clone, Debug)]
struct Drawn {
    kind: &'static str,
    hash: u64,
    n: usize,
    first: (f32, f32),
}
impl PartialEq for Drawn {
    fn eq(&self, o: &Drawn) -> bool {
        // bit for bit: positions may be not-a-number
        self.kind == o.kind && self.hash == o.hash && self.n == o.n
    }
}

fn new_app(disk: &Option<Disk>, memory: Option<egui::Memory>) -> (egui::Context, MainApp) {
    let ctx = egui::Context::default();
    if let Some(m) = memory {
        ctx.memory_mut(|x| *x = m);
    }
    let mut cc = eframe::CreationContext::_new_kittest(ctx.clone());
    if let Some(d) = disk {
        cc.storage = Some(d);
    }
    let app = MainApp::new(&cc);
    ctx.enable_accesskit();
    (ctx, app)
}

fn input(time: f64, w: f32, h: f32, ppp: f32, focused: bool, theme: Option<egui::Theme>, events: Vec<Event>) -> egui::RawInput {
    let mut raw = egui::RawInput {
        screen_rect: Some(Rect::from_min_size(Pos2::ZERO, vec2(w, h))),
        max_texture_side: Some(8192),
        time: Some(time),
        focused,
        system_theme: theme,
        events,
        ..Default::default()
    };
    let v = raw.viewports.get_mut(&egui::ViewportId::ROOT).unwrap();
    v.native_pixels_per_point = Some(ppp);
    v.focused = Some(focused);
    v.inner_rect = Some(Rect::from_min_size(Pos2::ZERO, vec2(w, h)));
    raw
}

/// The triangles and circles painted inside the plot.
fn collect(out: &egui::FullOutput, plot: Option<Rect>) -> Vec<Drawn> {
    fn walk(s: &egui::Shape, v: &mut Vec<Drawn>) {
        match s {
            egui::Shape::Vec(l) => l.iter().for_each(|s| walk(s, v)),
            egui::Shape::Mesh(m) => {
                let mut h = m.indices.len() as u64;
                for i in &m.indices {
                    h = mix(h, *i as u64);
                }
                for p in &m.vertices {
                    h = mix(h, ((p.pos.x.to_bits() as u64) << 32) | p.pos.y.to_bits() as u64);
                    h = mix(h, u32::from_le_bytes(p.color.to_array()) as u64);
                }
                let first = m.vertices.first().map(|p| (p.pos.x, p.pos.y)).unwrap_or_default();
                v.push(Drawn { kind: "mesh", hash: h, n: m.vertices.len(), first });
            }
            egui::Shape::Circle(c) => {
                let mut h = mix(c.center.x.to_bits() as u64, c.center.y.to_bits() as u64);
                h = mix(h, c.radius.to_bits() as u64);
                h = mix(h, u32::from_le_bytes(c.fill.to_array()) as u64);
                v.push(Drawn { kind: "circle", hash: h, n: 1, first: (c.center.x, c.center.y) });
            }
            _ => {}
        }
    }
    let mut v = vec![];
    let Some(plot) = plot else { return v };
    for s in &out.shapes {
        if plot.expand(1.5).contains_rect(s.clip_rect) && s.clip_rect.width() > plot.width() - 3.0 && s.clip_rect.height() > plot.height() - 3.0 {
            walk(&s.shape, &mut v);
        }
    }
    v
}

impl Sim {
    fn new(p: &Plan) -> Sim {
        let (ctx, app) = new_app(&None, None);
        Sim {
            ctx,
            app,
            frame: eframe::Frame::_new_kittest(),
            disk: None,
            time: 0.0,
            w: p.w,
            h: p.h,
            ppp: p.ppp,
            focused: true,
            theme: None,
            at: None,
            transform: None,
            painted: vec![],
            nodes: vec![],
            repaint: 0.0,
            frames: 0,
            digest: 0,
        }
    }

    fn frame(&mut self, dt: f64, ins: &[In]) -> bool {
        self.time += dt;
        let mut events = vec![];
        for i in ins {
            match i {
                In::E(e) => events.push(e.clone()),
                In::Size(w, h) => {
                    self.w = *w;
                    self.h = *h;
                }
                In::Ppp(p) => self.ppp = *p,
                In::Focus(f) => {
                    self.focused = *f;
                    events.push(Event::WindowFocused(*f));
                }
                In::Theme(d) => self.theme = Some(if *d { egui::Theme::Dark } else { egui::Theme::Light }),
            }
        }
        let raw = input(self.time, self.w, self.h, self.ppp, self.focused, self.theme, events);
        take_transform();
        let app = &mut self.app;
        let fr = &mut self.frame;
        let out = self.ctx.run(raw, |ctx| app.update(ctx, fr));
        let n = out.shapes.len();
        if let Some(t) = take_transform() {
            self.transform = Some(t);
        }
        if std::env::var_os("CAVSIM_VERBOSE").is_some() { eprintln!("frame {} bounds {:?}", self.frames, self.transform.map(|t| (t.bounds().min(), t.bounds().max(), *t.frame()))); let st = self.state(); let sc = &st.scenes[st.selected.unwrap_or(0)]; eprintln!("{:?}", sc.plines); eprintln!("  scene {:?} mode {} offset {} count {} hsi {}", st.selected, sc.mode, sc.offset, sc.max_offset_count, sc.handle_self_intersects); }
        self.painted = collect(&out, self.transform.map(|t| *t.frame()));
        self.repaint = out.viewport_output.get(&egui::ViewportId::ROOT).map(|v| v.repaint_delay.as_secs_f64()).unwrap_or(1e9);
        if let Some(u) = &out.platform_output.accesskit_update {
            self.nodes = u
                .nodes
                .iter()
                .filter_map(|(id, n)| {
                    let b = n.bounds()?;
                    let label = n.label().or(n.value()).unwrap_or("").to_string();
                    Some(Node {
                        id: *id,
                        label,
                        rect: Rect::from_min_max(pos2(b.x0 as f32, b.y0 as f32), pos2(b.x1 as f32, b.y1 as f32)),
                        operable: n.supports_action(accesskit::Action::Click) || n.supports_action(accesskit::Action::SetValue) || n.supports_action(accesskit::Action::Focus),
                        number: n.numeric_value().is_some(),
                    })
                })
                .collect();
            self.nodes.sort_by_key(|n| n.id.0);
        }
        let prims = self.ctx.tessellate(out.shapes, out.pixels_per_point);
        self.frames += 1;
        self.digest = mix(self.digest, mix(n as u64, prims.len() as u64));
        for d in &self.painted {
            self.digest = mix(self.digest, d.hash);
        }
        true
    }

    fn state(&self) -> AppState {
        self.app.sim_state()
    }

    fn vertexes(&self) -> Vec<(usize, usize, f64, f64)> {
        let st = self.state();
        let sc = &st.scenes[st.selected.unwrap_or(0)];
        sc.plines
            .iter()
            .enumerate()
            .flat_map(|(i, p)| (0..p.vertex_count()).map(move |j| (i, j, p.at(j).x, p.at(j).y)))
            .collect()
    }

    fn resolve(&self, t: &Target) -> Pos2 {
        let p = match t {
            Target::Vertex(n, dx, dy) => match (&self.transform, self.vertexes()) {
                (Some(tr), v) if !v.is_empty() => {
                    let v = v[*n as usize % v.len()];
                    tr.position_from_point(&PlotPoint::new(v.2, v.3)) + vec2(*dx, *dy)
                }
                _ => pos2(*dx, *dy),
            },
            Target::Frac(x, y) => pos2(self.w * x, self.h * y),
            Target::Plot(x, y) => match &self.transform {
                Some(tr) => tr.frame().min + vec2(tr.frame().width() * x, tr.frame().height() * y),
                None => pos2(self.w * x, self.h * y),
            },
            Target::Widget(..) | Target::Named(..) | Target::Number(..) => {
                let f = if let Target::Widget(_, f) | Target::Number(_, f) = t { *f } else { 0.5 };
                match self.node(t) {
                    Some(n) => pos2(n.rect.left() + n.rect.width() * f, n.rect.center().y),
                    None => pos2(self.w * 0.9, self.h * f),
                }
            }
            Target::By(dx, dy) => self.at.unwrap_or(pos2(self.w * 0.3, self.h * 0.5)) + vec2(*dx, *dy),
        };
        let lim = |v: f32| if v.is_finite() { v.clamp(-1e5, 1e5) } else { 0.0 };
        pos2(lim(p.x), lim(p.y))
    }

    fn node(&self, t: &Target) -> Option<&Node> {
        match t {
            Target::Widget(n, _) => {
                let v: Vec<&Node> = self.nodes.iter().filter(|n| n.operable).collect();
                if v.is_empty() { None } else { Some(v[*n as usize % v.len()]) }
            }
            Target::Number(n, _) => {
                let v: Vec<&Node> = self.nodes.iter().filter(|n| n.number).collect();
                if v.is_empty() { None } else { Some(v[*n as usize % v.len()]) }
            }
            Target::Named(s) => self.nodes.iter().filter(|n| &n.label == s).last(),
            _ => None,
        }
    }

    fn event(&mut self, e: &Ev) -> Vec<In> {
        match e {
            Ev::Move(t) => {
                let p = self.resolve(t);
                self.at = Some(p);
                vec![In::E(Event::PointerMoved(p))]
            }
            Ev::Press(b) | Ev::Release(b) => {
                let p = self.at.unwrap_or(pos2(self.w * 0.3, self.h * 0.5));
                self.at = Some(p);
                vec![In::E(Event::PointerButton {
                    pos: p,
                    button: BUTTONS[*b as usize % BUTTONS.len()],
                    pressed: matches!(e, Ev::Press(_)),
                    modifiers: Default::default(),
                })]
            }
            Ev::Wheel(x, y, m) => vec![In::E(Event::MouseWheel {
                unit: match m >> 4 {
                    0 => egui::MouseWheelUnit::Point,
                    1 => egui::MouseWheelUnit::Line,
                    _ => egui::MouseWheelUnit::Page,
                },
                delta: vec2(*x, *y),
                modifiers: mods(*m & 15),
            })],
            Ev::Pinch(f) => vec![In::E(Event::Zoom(*f))],
            Ev::Key(k, m) => {
                let mut v = vec![];
                for pressed in [true, false] {
                    v.push(In::E(Event::Key {
                        key: KEYS[*k as usize % KEYS.len()],
                        physical_key: None,
                        pressed,
                        repeat: false,
                        modifiers: mods(*m),
                    }));
                }
                v
            }
            Ev::Text(s) => vec![In::E(Event::Text(s.clone()))],
            Ev::Resize(w, h) => vec![In::Size(*w, *h)],
            Ev::Focus(f) => vec![In::Focus(*f)],
            Ev::Gone => {
                vec![In::E(Event::PointerGone)]
            }
            Ev::Ppp(p) => vec![In::Ppp(*p)],
            Ev::Theme(d) => vec![In::Theme(*d)],
            Ev::Assist(t, a, x) => {
                let Some(n) = self.node(t) else { return vec![] };
                let (action, data) = match a {
                    0 => (accesskit::Action::Click, None),
                    1 => (accesskit::Action::Focus, None),
                    2 => (accesskit::Action::Increment, None),
                    3 => (accesskit::Action::Decrement, None),
                    _ => (accesskit::Action::SetValue, Some(accesskit::ActionData::NumericValue(*x))),
                };
                vec![In::E(Event::AccessKitActionRequest(accesskit::ActionRequest { action, target: n.id, data }))]
            }
            Ev::Touch(id, phase, t) => {
                let p = self.resolve(t);
                let phase = match phase % 4 {
                    0 => egui::TouchPhase::Start,
                    1 => egui::TouchPhase::Move,
                    2 => egui::TouchPhase::End,
                    _ => egui::TouchPhase::Cancel,
                };
                vec![In::E(Event::Touch { device_id: egui::TouchDeviceId(7), id: egui::TouchId(*id as u64), phase, pos: p, force: None })]
            }
        }
    }

    fn restart(&mut self, kind: u8) {
        match kind {
            0 => {
                let mut d = Disk::default();
                self.app.save(&mut d);
                self.disk = Some(d);
            }
            1 => {}
            2 => {
                let mut d = Disk::default();
                d.0.insert(eframe::APP_KEY.into(), "(scenes:[)\u{0}(".into());
                self.disk = Some(d);
            }
            _ => {
                if let Some(d) = &mut self.disk {
                    for v in d.0.values_mut() {
                        let n = v.len() / 2;
                        v.truncate(n);
                    }
                }
            }
        }
        let (ctx, app) = new_app(&self.disk, None);
        self.ctx = ctx;
        self.app = app;
        self.transform = None;
        self.painted.clear();
        self.nodes.clear();
        self.time = 0.0;
    }
}

// ---------------------------------------------------------------------------------- dragging

type Vid = (usize, usize, usize);

/// Decides C12 frame by frame from what was delivered and what became of the geometry.
#[derive(Default)]
struct Drag {
    down: [bool; 5],
    at: Option<Pos2>,
    /// vertexes in reach of a press since all buttons were last up; None: any
    reach: Option<Vec<Vid>>,
    moved: Option<Vid>,
    clean: Option<Clean>,
    last_wheel: f64,
    quiet_since: bool,
    /// a finger may be on the screen: long presses mean something else then
    touched: bool,
    /// frames since the plot last changed its place in the window
    steady: u32,
}

struct Clean {
    near: Vec<Vid>,
    origin: Pos2,
    far: bool,
}

struct Before {
    st: AppState,
    tr: Option<PlotTransform>,
    free: bool,
    size: (f32, f32, f32),
    time: f64,
}

const REACH: f32 = 10.5;
const SURE: f32 = 3.0;

fn screen(tr: &PlotTransform, x: f64, y: f64) -> (f64, f64) {
    let b = tr.bounds();
    let f = tr.frame();
    let sx = f.left() as f64 + (x - b.min()[0]) * tr.dpos_dvalue_x();
    let sy = f.bottom() as f64 + (y - b.min()[1]) * tr.dpos_dvalue_y();
    (sx, sy)
}

fn sane(tr: &PlotTransform) -> bool {
    let b = tr.bounds();
    let (lo, hi) = (b.min(), b.max());
    let big = lo.iter().chain(&hi).fold(0.0f64, |m, v| m.max(v.abs()));
    b.is_valid()
        && b.width() > 1e-3
        && b.height() > 1e-3
        && b.width() < 1e7
        && big < 1e5 * b.width()
        && tr.frame().width() > 60.0
        && tr.frame().height() > 60.0
}

impl Drag {
    fn before(&self, s: &Sim, delivered: &[In]) -> Before {
        // nothing floats above the plot where the pointer went
        let mut free = !s.state().settings_open && s.transform.is_some() && !s.ctx.memory(|m| m.any_popup_open());
        for i in delivered {
            if let In::E(Event::PointerMoved(p) | Event::PointerButton { pos: p, .. }) = i {
                free &= match s.ctx.layer_id_at(*p) {
                    Some(l) => l.order == egui::Order::Background,
                    None => true,
                };
            }
        }
        Before { st: s.state(), tr: s.transform, free, size: (s.w, s.h, s.ppp), time: s.time }
    }

    fn after(&mut self, b: &Before, s: &Sim, delivered: &[In], stats: &mut Stats) -> Result<(), (String, String)> {
        let st = s.state();
        let sel = st.selected.unwrap_or(0);
        let switched = b.st.selected != st.selected;
        let fail = |c: &str, d: String| Err((c.to_string(), d));
        // what arrived
        let was_down = self.down.iter().any(|d| *d);
        let at0 = self.at;
        let (mut presses, mut releases, mut other, mut wheel) = (vec![], 0, 0, 0);
        let mut path: Vec<Pos2> = at0.into_iter().collect();
        for i in delivered {
            match i {
                In::E(Event::PointerMoved(p)) => {
                    self.at = Some(*p);
                    path.push(*p);
                }
                In::E(Event::PointerButton { pos, button, pressed, .. }) => {
                    self.at = Some(*pos);
                    path.push(*pos);
                    self.down[*button as usize] = *pressed;
                    if *pressed { presses.push(*pos) } else { releases += 1 }
                }
                In::E(Event::PointerGone) => {
                    self.at = None;
                    other += 1;
                }
                In::E(Event::MouseWheel { .. } | Event::Zoom(_)) => wheel += 1,
                In::E(Event::Touch { .. }) => {
                    self.touched = true;
                    other += 1;
                }
                _ => other += 1,
            }
        }
        if wheel > 0 {
            self.last_wheel = s.time;
        }
        if b.size != (s.w, s.h, s.ppp) {
            other += 1;
        }
        let delta = match (at0, self.at) {
            (Some(a), Some(b)) => b - a,
            _ => Vec2::ZERO,
        };
        // structure never changes
        for (k, (p, q)) in b.st.scenes.iter().zip(&st.scenes).enumerate() {
            if p.plines.len() != q.plines.len() {
                return fail("drag-structure", format!("scene {k} has {} polylines after {}", q.plines.len(), p.plines.len()));
            }
            for (i, (x, y)) in p.plines.iter().zip(&q.plines).enumerate() {
                if x.vertex_count() != y.vertex_count() || x.is_closed() != y.is_closed() {
                    return fail("drag-structure", format!("polyline {i} of scene {k} changed its vertex count or closure"));
                }
                for j in 0..x.vertex_count() {
                    if x.at(j).bulge.to_bits() != y.at(j).bulge.to_bits() {
                        return fail("drag-bulge", format!("the bulge of vertex {j} of polyline {i} of scene {k} changed"));
                    }
                }
            }
        }
        // which vertexes are in reach of the presses of this frame
        if !was_down {
            self.reach = Some(vec![]);
            self.moved = None;
        }
        if !presses.is_empty() || releases > 0 {
            self.moved = None;
            self.clean = None;
        }
        if !presses.is_empty() {
            match (&b.tr, switched) {
                (Some(tr), false) => {
                    if let Some(r) = &mut self.reach {
                        for (i, p) in b.st.scenes[sel].plines.iter().enumerate() {
                            for j in 0..p.vertex_count() {
                                let v = tr.position_from_point(&PlotPoint::new(p.at(j).x, p.at(j).y));
                                if presses.iter().any(|q| !(q.distance(v) > REACH)) {
                                    r.push((sel, i, j));
                                }
                            }
                        }
                    }
                }
                _ => self.reach = None,
            }
        }
        // what moved
        let mut changed: Vec<(Vid, (f64, f64), (f64, f64))> = vec![];
        for (k, (p, q)) in b.st.scenes.iter().zip(&st.scenes).enumerate() {
            for (i, (x, y)) in p.plines.iter().zip(&q.plines).enumerate() {
                for j in 0..x.vertex_count() {
                    let (u, v) = (x.at(j), y.at(j));
                    if u.x.to_bits() != v.x.to_bits() || u.y.to_bits() != v.y.to_bits() {
                        changed.push(((k, i, j), (u.x, u.y), (v.x, v.y)));
                    }
                }
            }
        }
        if !changed.is_empty() {
            stats.count("frames in which a vertex moved", 1);
        }
        if !changed.is_empty() && !was_down && presses.is_empty() {
            return fail("moved-while-up", format!("vertex {:?} moved by pointer movement {delta:?} with every button up", changed[0].0));
        }
        if changed.len() > 1 && releases == 0 {
            return fail("moved-several", format!("{} vertexes moved in one frame: {:?}", changed.len(), changed.iter().map(|c| c.0).collect::<Vec<_>>()));
        }
        for (id, u, v) in &changed {
            if let Some(r) = &self.reach {
                if !r.contains(id) {
                    return fail("moved-unpressed", format!("vertex {id:?} moved, but no press since the buttons were last up was on it (in reach: {r:?})"));
                }
            }
            if id.0 != sel {
                return fail("moved-hidden", format!("vertex {id:?} moved while scene {sel} was shown"));
            }
            if releases == 0 && presses.is_empty() {
                if let Some(m) = self.moved {
                    if m != *id {
                        return fail("moved-other", format!("vertex {id:?} moved within the drag of {m:?}"));
                    }
                }
                self.moved = Some(*id);
            }
            if let (Some(t), Some(t2), false) = (&b.tr, &s.transform, switched) {
                if sane(t) && sane(t2) {
                    let (sx, sy) = (t.dpos_dvalue_x(), t.dpos_dvalue_y());
                    let d = ((v.0 - u.0) * sx, (v.1 - u.1) * sy);
                    let tol = 0.05 + 1e-3 * delta.length() as f64 + 1e-12 * (u.0.abs() * sx.abs() + u.1.abs() * sy.abs());
                    let follows = (d.0 - delta.x as f64).abs() <= tol && (d.1 - delta.y as f64).abs() <= tol;
                    let on_it = match self.at {
                        Some(p) => [t, t2].iter().any(|t| {
                            let w = screen(t, v.0, v.1);
                            (w.0 - p.x as f64).hypot(w.1 - p.y as f64) <= 1.5
                        }),
                        None => false,
                    };
                    if !follows && !on_it {
                        return fail("moved-wrongly", format!("vertex {id:?} moved by {d:?} points on the screen while the pointer moved by {delta:?}"));
                    }
                }
            }
        }
        // an undisturbed drag
        let place = |t: &Option<PlotTransform>| t.map(|t| *t.frame());
        self.steady = if place(&b.tr) == place(&s.transform) { self.steady + 1 } else { 0 };
        if other > 0 || switched || !b.free || self.touched || self.steady == 0 {
            self.clean = None;
        }
        let mut ended = false;
        if let Some(c) = &mut self.clean {
            let tr = b.tr.as_ref().unwrap();
            if c.far && sane(tr) && delta.length() >= 1.0 {
                stats.count("frames in which the grabbed vertex had to follow", 1);
                if !changed.iter().any(|x| c.near.contains(&x.0)) {
                    return fail("not-following", format!("the pointer moved by {delta:?} in an undisturbed drag from {:?}, none of {:?} moved", c.origin, c.near));
                }
                let (x, y) = (&b.st, &st);
                let sc = |s: &AppState| {
                    (
                        s.show_grid,
                        s.show_axes,
                        s.show_cursor_pos,
                        s.scenes.iter().map(|s| (s.mode, s.offset.to_bits(), s.max_offset_count, s.handle_self_intersects, s.fill, s.show_vertexes)).collect::<Vec<_>>(),
                    )
                };
                if sc(x) != sc(y) {
                    return fail("drag-settings", "a setting changed while a vertex was dragged".into());
                }
                if s.time - self.last_wheel > 5.0 && self.quiet_since {
                    if let Some(t2) = &s.transform {
                        let f = |t: &PlotTransform| (t.bounds().min().map(f64::to_bits), t.bounds().max().map(f64::to_bits));
                        if f(tr) != f(t2) {
                            return fail("drag-pans", format!("the view moved while a vertex was dragged by {delta:?}"));
                        }
                    }
                }
            }
            c.far |= path.iter().any(|p| p.distance(c.origin) > 7.0);
            if self.at.is_none() {
                ended = true;
            }
        } else if presses.len() == 1 && !self.touched && self.steady > 3 && releases == 0 && !was_down && other == 0 && wheel == 0 && b.free && !switched && b.st.selected.is_some() {
            if let (Some(t), Some(end)) = (&b.tr, self.at) {
                let p = presses[0];
                let inner = t.frame().shrink(20.0);
                let whole = Rect::from_min_size(Pos2::ZERO, vec2(s.w, s.h));
                let sc = &b.st.scenes[sel];
                let shown = sel != 1 || sc.show_vertexes;
                if sane(t) && inner.is_positive() && inner.contains(p) && inner.contains(end) && whole.contains_rect(*t.frame()) && shown && s.transform.is_some() {
                    let mut near = vec![];
                    let mut sure = false;
                    for (i, pl) in sc.plines.iter().enumerate() {
                        for j in 0..pl.vertex_count() {
                            let v = t.position_from_point(&PlotPoint::new(pl.at(j).x, pl.at(j).y));
                            let d = p.distance(v);
                            if d <= REACH {
                                near.push((sel, i, j));
                            }
                            sure |= d <= SURE / 1.42;
                        }
                    }
                    if sure {
                        stats.count("presses that had to grab", 1);
                        self.quiet_since = s.time - self.last_wheel > 5.0;
                        self.clean = Some(Clean { near, origin: p, far: false });
                    }
                }
            }
        }
        if ended {
            self.clean = None;
        }
        let _ = b.time;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------- fresh applications

/// Everything a fresh application is given: what is shown and what an application keeps between two
/// launches. Caches, temporary values and globals stay behind.
#[derive(Serialize, Deserialize)]
struct Restore {
    memory: String,
    selected: Option<usize>,
    flags: [bool; 4],
    /// closed, then the bits of x, y and bulge
    scenes: Vec<(Vec<(bool, Vec<[u64; 3]>)>, usize, u64, usize, [bool; 3])>,
    at: (f64, f32, f32, f32, bool, Option<bool>),
}

impl Restore {
    fn of(s: &Sim, st: &AppState) -> Restore {
        Restore {
            memory: s.ctx.memory(|m| ron::to_string(m).unwrap()),
            selected: st.selected,
            flags: [st.settings_open, st.show_grid, st.show_axes, st.show_cursor_pos],
            scenes: st
                .scenes
                .iter()
                .map(|sc| {
                    let pl = |p: &Polyline| (p.is_closed(), p.iter_vertexes().map(|v| [v.x.to_bits(), v.y.to_bits(), v.bulge.to_bits()]).collect());
                    (sc.plines.iter().map(pl).collect(), sc.mode, sc.offset.to_bits(), sc.max_offset_count, [sc.handle_self_intersects, sc.fill, sc.show_vertexes])
                })
                .collect(),
            at: (s.time, s.w, s.h, s.ppp, s.focused, s.theme.map(|t| t == egui::Theme::Dark)),
        }
    }

    fn state(&self) -> AppState {
        let pl = |(closed, v): &(bool, Vec<[u64; 3]>)| {
            let mut p = if *closed { Polyline::new_closed() } else { Polyline::new() };
            for w in v {
                p.add(f64::from_bits(w[0]), f64::from_bits(w[1]), f64::from_bits(w[2]));
            }
            p
        };
        AppState {
            selected: self.selected,
            settings_open: self.flags[0],
            show_grid: self.flags[1],
            show_axes: self.flags[2],
            show_cursor_pos: self.flags[3],
            scenes: self
                .scenes
                .iter()
                .map(|s| SceneState {
                    plines: s.0.iter().map(pl).collect(),
                    mode: s.1,
                    offset: f64::from_bits(s.2),
                    max_offset_count: s.3,
                    handle_self_intersects: s.4[0],
                    fill: s.4[1],
                    show_vertexes: s.4[2],
                })
                .collect(),
        }
    }

    /// Start an application, give it this and look at what it shows.
    fn show(&self) -> (Vec<Drawn>, Vec<u64>) {
        let mem: egui::Memory = ron::from_str(&self.memory).unwrap();
        // the places plots keep their views at
        let v = serde_json::to_value(&mem.data).unwrap();
        let ids = v.as_array().unwrap().iter().filter(|e| e[1]["ron"].as_str().is_some_and(|r| r.contains("auto_bounds")));
        let ids = ids.map(|e| e[0].as_u64().unwrap() ^ e[1]["type_id"].as_u64().unwrap());
        let ids: Vec<egui::Id> = ids.filter_map(|i| serde_json::from_value(serde_json::json!(i)).ok()).collect();
        let (ctx, mut app) = new_app(&None, Some(mem));
        let plots: Vec<(egui::Id, egui_plot::PlotMemory)> = ids.into_iter().filter_map(|i| egui_plot::PlotMemory::load(&ctx, i).map(|m| (i, m))).collect();
        app.sim_restore(&self.state());
        let mut frame = eframe::Frame::_new_kittest();
        let (time, w, h, ppp, focused, dark) = self.at;
        let theme = dark.map(|d| if d { egui::Theme::Dark } else { egui::Theme::Light });
        let mut last = (vec![], vec![]);
        // the layout takes its time; then the views as they were
        for i in 0..FRESH_FRAMES {
            if i + 2 >= FRESH_FRAMES {
                for (id, m) in &plots {
                    m.clone().store(&ctx, *id);
                }
            }
            take_transform();
            let raw = input(time + (i + 1) as f64 / 60.0, w, h, ppp, focused, theme, vec![]);
            let out = ctx.run(raw, |ctx| app.update(ctx, &mut frame));
            let t = take_transform();
            last = (collect(&out, t.map(|t| *t.frame())), view(&t));
        }
        last
    }
}

const FRESH_FRAMES: u32 = 4;

/// Place and bounds of a plot.
fn view(t: &Option<PlotTransform>) -> Vec<u64> {
    let Some(t) = t else { return vec![] };
    let f = t.frame();
    let mut v: Vec<u64> = [f.min.x, f.min.y, f.max.x, f.max.y].iter().map(|x| x.to_bits() as u64).collect();
    v.extend(t.bounds().min().iter().chain(t.bounds().max().iter()).map(|x| (x + 0.0).to_bits()));
    v
}

/// A process forked before the first application of the run was made; every fresh application runs in
/// a copy of its own, so nothing the process remembers can answer for it.
mod peer {
    use super::*;

    fn put(fd: i32, b: &[u8]) {
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
        let _ = f.write_all(&(b.len() as u64).to_le_bytes());
        let _ = f.write_all(b);
    }

    fn get(fd: i32) -> Option<Vec<u8>> {
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
        let mut n = [0u8; 8];
        f.read_exact(&mut n).ok()?;
        let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
        f.read_exact(&mut b).ok()?;
        Some(b)
    }

    fn gone() -> ! {
        unsafe { libc::_exit(9) }
    }

    fn answer(req: &[u8], entropy: u64) -> Option<String> {
        seams::ENTROPY.store(entropy, std::sync::atomic::Ordering::Relaxed);
        seams::SIM.store(1, std::sync::atomic::Ordering::Relaxed);
        std::panic::set_hook(Box::new(|_| {}));
        seams::start_work(FRAME_WORK, gone);
        let r: Restore = serde_json::from_slice(req).ok()?;
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || r.show());
        let (drawn, view) = t.unwrap().join().ok()?;
        let d: Vec<_> = drawn.iter().map(|d| (d.kind == "mesh", d.hash, d.n, d.first.0.to_bits(), d.first.1.to_bits())).collect();
        serde_json::to_string(&(d, view)).ok()
    }

    pub fn start(out: i32, hash: u64) -> i32 {
        unsafe {
            let mut fds = [0i32; 2];
            assert!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM, 0, fds.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid > 0 {
                libc::close(fds[1]);
                return fds[0];
            }
            libc::close(fds[0]);
            libc::close(out);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            while let Some(req) = get(fds[1]) {
                let pid = libc::fork();
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let Some(a) = answer(&req, !hash) else { libc::_exit(8) };
                    put(fds[1], a.as_bytes());
                    libc::_exit(0)
                }
                let mut status = 0;
                libc::waitpid(pid, &mut status, 0);
                if status != 0 {
                    put(fds[1], format!("{status}").as_bytes());
                }
            }
            libc::_exit(0)
        }
    }

    pub fn ask(fd: i32, r: &Restore) -> Result<(Vec<Drawn>, Vec<u64>), String> {
        put(fd, serde_json::to_string(r).unwrap().as_bytes());
        let a = get(fd).ok_or("said nothing")?;
        let v: Result<(Vec<(bool, u64, usize, u32, u32)>, Vec<u64>), _> = serde_json::from_slice(&a);
        let (d, view) = v.map_err(|_| format!("ended with status {}", String::from_utf8_lossy(&a)))?;
        let d = d.into_iter().map(|(m, hash, n, x, y)| Drawn { kind: if m { "mesh" } else { "circle" }, hash, n, first: (f32::from_bits(x), f32::from_bits(y)) });
        Ok((d.collect(), view))
    }
}

// ---------------------------------------------------------------------------------- execution

const REST_FRAMES: u32 = 400;

struct Exec<'a> {
    plan: &'a Plan,
    sim: Sim,
    drag: Drag,
    late: Vec<(u64, In)>,
    queue: Vec<In>,
    hist: u64,
    fresh: u64,
    /// the process fresh applications start from
    peer: i32,
}

type Fail = (String, String);

impl Exec<'_> {
    fn step(&mut self, dt: f64, stats: &mut Stats) -> Result<(), Fail> {
        let now = self.sim.frames;
        let (due, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut self.late).into_iter().partition(|(f, _)| *f <= now);
        self.late = rest;
        let mut ins: Vec<In> = due.into_iter().map(|(_, i)| i).collect();
        ins.extend(std::mem::take(&mut self.queue));
        stats.max("events in one frame", ins.len() as u64);
        stats.count("simulated steps", 1);
        stats.count("simulated milliseconds", (dt * 1e3) as u64);
        let c12 = self.plan.prop == "C12";
        let before = if c12 { Some(self.drag.before(&self.sim, &ins)) } else { None };
        seams::start_work(FRAME_WORK, overrun);
        {
            let mut w = WATCH.lock().unwrap();
            let mut st = self.sim.state();
            let shown = st.selected.unwrap_or(0);
            w.frame = now;
            w.offsets = shown == 2;
            w.scene = Some(st.scenes.swap_remove(shown));
        }
        // no panic may leave a frame
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.sim.frame(dt, &ins)));
        stats.max("edges in one frame", seams::work());
        if r.is_err() {
            let m = PANIC.lock().unwrap().clone();
            return Err(("crash".into(), format!("frame {}: the application panicked: {m}", now)));
        }
        if let Some(b) = before {
            self.drag.after(&b, &self.sim, &ins, stats)?;
        }
        self.hist = mix(self.hist, self.sim.digest);
        Ok(())
    }

    /// Let every event arrive and the application come to rest.
    fn settle(&mut self, stats: &mut Stats) -> Result<(), Fail> {
        if self.plan.prop == "C13" {
            // then only the frames the application asks for: nobody else makes it show what is current
            while !self.queue.is_empty() || !self.late.is_empty() {
                self.step(1.0 / 60.0, stats)?;
            }
        } else {
            for _ in 0..12 {
                self.step(1.0 / 60.0, stats)?;
            }
        }
        let mut n = 0;
        while self.sim.repaint <= 0.0 {
            n += 1;
            if n > REST_FRAMES {
                if self.sim.ctx.input(|i| i.pointer.any_down()) {
                    // a button held on a widget may keep its animations alive, one held on the plot has none to
                    let on_plot = self.sim.ctx.input(|i| i.pointer.press_origin()).is_some_and(|p| self.sim.transform.is_some_and(|t| t.frame().contains(p)));
                    if !on_plot {
                        stats.count("not at rest with a button held", 1);
                        return Ok(());
                    }
                }
                return Err(("restless".into(), format!("after {REST_FRAMES} frames without any event the application still asks for another")));
            }
            self.step(1.0 / 60.0, stats)?;
        }
        stats.max("frames until rest", n as u64 + 12);
        stats.count("times at rest", 1);
        if self.plan.prop == "C13" {
            self.compare(stats)?;
        }
        Ok(())
    }

    /// What is shown at rest is what a fresh application shows for the same state.
    fn compare(&mut self, stats: &mut Stats) -> Result<(), Fail> {
        let s = &mut self.sim;
        let st = s.state();
        let shown = s.painted.clone();
        let t1 = s.transform;
        let r = peer::ask(self.peer, &Restore::of(s, &st));
        let (fresh, t2) = match r {
            Ok(r) => r,
            Err(e) => return Err(("crash".into(), format!("a fresh application {e}"))),
        };
        let mut shown = (shown, t1);
        let same_view = |a: &Option<PlotTransform>, b: &Vec<u64>| view(a) == *b;
        if !same_view(&shown.1, &t2) {
            // the layout was still settling: compare frames made from the same layout
            self.step(1.0 / 60.0, stats)?;
            shown = (self.sim.painted.clone(), self.sim.transform);
            stats.count("comparisons one frame later", 1);
        }
        if !same_view(&shown.1, &t2) {
            stats.count("comparisons skipped (views differ)", 1);
            if std::env::var_os("CAVSIM_VERBOSE").is_some() {
                let f = |v: &Vec<u64>| v.iter().enumerate().map(|(i, x)| if i < 4 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) }).collect::<Vec<_>>();
                eprintln!("views differ: {:?} against {:?}", f(&view(&shown.1)), f(&t2));
            }
            return Ok(());
        }
        stats.count("comparisons with a fresh application", 1);
        stats.count("shapes compared", fresh.len() as u64);
        self.fresh += 1;
        if shown.0 != fresh {
            let i = (0..fresh.len().max(shown.0.len())).find(|i| shown.0.get(*i) != fresh.get(*i)).unwrap();
            return Err((
                "stale".into(),
                format!(
                    "scene {:?}: at rest the plot shows {} shapes, a fresh application with the same polylines and settings {}; they differ first at shape {i}: {:?} against {:?}",
                    st.selected,
                    shown.0.len(),
                    fresh.len(),
                    shown.0.get(i),
                    fresh.get(i)
                ),
            ));
        }
        Ok(())
    }

    fn run(&mut self, stats: &mut Stats) -> Result<(), Fail> {
        self.step(0.0, stats)?;
        let plan = self.plan;
        for op in &plan.ops {
            match op {
                Op::Frame(ms) => self.step(*ms as f64 / 1e3, stats)?,
                Op::Settle => {
                    stats.op("settle");
                    self.settle(stats)?
                }
                Op::Restart(k) => {
                    stats.fault(["restart after saving", "crash and restart", "restart with damaged storage", "restart with truncated storage"][*k as usize % 4]);
                    self.queue.clear();
                    self.late.clear();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.sim.restart(*k)));
                    if r.is_err() {
                        let m = PANIC.lock().unwrap().clone();
                        return Err(("crash".into(), format!("the application panicked while starting: {m}")));
                    }
                    self.drag = Drag::default();
                    self.step(0.0, stats)?;
                }
                Op::E(e, f) => {
                    stats.op(match e {
                        Ev::Move(_) => "move",
                        Ev::Press(_) => "press",
                        Ev::Release(_) => "release",
                        Ev::Wheel(..) => "wheel",
                        Ev::Pinch(_) => "pinch",
                        Ev::Key(..) => "key",
                        Ev::Text(_) => "text",
                        Ev::Resize(..) => "resize",
                        Ev::Focus(_) => "focus",
                        Ev::Gone => "pointer gone",
                        Ev::Ppp(_) => "scale change",
                        Ev::Assist(..) => "assistive action",
                        Ev::Touch(..) => "touch",
                        Ev::Theme(_) => "theme",
                    });
                    let ins = self.sim.event(e);
                    match f {
                        Fault::None => self.queue.extend(ins),
                        Fault::Drop => stats.fault("event lost"),
                        Fault::Dup => {
                            stats.fault("event duplicated");
                            self.queue.extend(ins.clone());
                            self.queue.extend(ins);
                        }
                        Fault::Delay(n) => {
                            stats.fault("event delayed");
                            let at = self.sim.frames + 1 + *n as u64;
                            self.late.extend(ins.into_iter().map(|i| (at, i)));
                        }
                        Fault::Swap => {
                            stats.fault("events reordered");
                            let last = self.queue.pop();
                            self.queue.extend(ins);
                            self.queue.extend(last);
                        }
                    }
                }
            }
        }
        // the user lets go
        for _ in 0..6 {
            self.step(1.0 / 60.0, stats)?;
        }
        let pos = self.sim.at.unwrap_or(pos2(10.0, 10.0));
        for b in BUTTONS {
            if self.sim.ctx.input(|i| i.pointer.button_down(b)) {
                self.queue.push(In::E(Event::PointerButton { pos, button: b, pressed: false, modifiers: Default::default() }));
            }
        }
        self.settle(stats)
    }
}

static PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// A frame takes up to a few million edges.
const FRAME_WORK: u64 = 500_000_000;

#[derive(Default)]
struct Watch {
    frame: u64,
    scene: Option<SceneState>,
    /// the scene shown repeats its offsets
    offsets: bool,
    out: i32,
}

static WATCH: std::sync::Mutex<Watch> = std::sync::Mutex::new(Watch { frame: 0, scene: None, offsets: false, out: -1 });

/// Smallest distance between two vertexes of the scene shown.
fn tightest(sc: &SceneState) -> f64 {
    let v: Vec<_> = sc.plines.iter().flat_map(|p| p.iter_vertexes()).collect();
    let mut d = f64::INFINITY;
    for i in 0..v.len() {
        for j in 0..i {
            d = d.min((v[i].x - v[j].x).hypot(v[i].y - v[j].y));
        }
    }
    d
}

/// Do repeated offsets of the scene, done by the library alone, arrive at a loop that encloses nothing?
fn collapses(sc: &SceneState) -> bool {
    let mut s = Shape::from_plines(sc.plines.iter().cloned());
    for _ in 0..sc.max_offset_count {
        s = s.parallel_offset(sc.offset, ShapeOffsetOptions::default());
        let mut any = false;
        for p in s.ccw_plines.iter().chain(s.cw_plines.iter()).map(|p| &p.polyline) {
            any = true;
            let l = p.path_length();
            if l < 1e-2 || p.area().abs() < 1e-9 * l * l {
                return true;
            }
        }
        if !any {
            break;
        }
    }
    false
}

fn overrun() -> ! {
    let w = std::mem::take(&mut *WATCH.lock().unwrap());
    let d = w.scene.as_ref().map(tightest).unwrap_or(f64::INFINITY);
    let what = if d < 1e-3 {
        "while two vertexes lie within 1e-3 of each other"
    } else if w.offsets {
        *WATCH.lock().unwrap() = Watch { out: w.out, frame: w.frame, ..Watch::default() };
        seams::start_work(FRAME_WORK, overrun_again);
        if w.scene.as_ref().is_some_and(collapses) {
            "while its offsets reach a loop that has collapsed"
        } else {
            "while no vertexes lie close together and none of its offsets collapses"
        }
    } else {
        "while no two vertexes lie close together"
    };
    hung(&w, &format!("{what} ({d:e})"))
}

fn overrun_again() -> ! {
    let w = std::mem::take(&mut *WATCH.lock().unwrap());
    hung(&w, "nor does the library, offsetting what it shows")
}

fn hung(w: &Watch, what: &str) -> ! {
    let v = serde_json::json!({"v": {"class": "hang", "detail": format!("frame {}: the application does not finish the frame within {FRAME_WORK} edges, {what}", w.frame)}, "stats": Value::Null});
    let s = v.to_string();
    unsafe {
        libc::write(w.out, s.as_ptr() as *const _, s.len());
        libc::_exit(0)
    }
}

fn body(plan: &Plan, out: i32, peer: i32) -> Value {
    WATCH.lock().unwrap().out = out;
    seams::ENTROPY.store(plan.hash, std::sync::atomic::Ordering::Relaxed);
    seams::SIM.store(1, std::sync::atomic::Ordering::Relaxed);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m: String = m.chars().take(300).collect();
        *PANIC.lock().unwrap() = format!("{m} at {l}");
    }));
    let mut stats = Stats::default();
    let mut x = Exec { plan, sim: Sim::new(plan), drag: Drag::default(), late: vec![], queue: vec![], hist: fnv(plan.prop.as_bytes()), fresh: 0, peer };
    let r = x.run(&mut stats);
    stats.trace(x.hist);
    stats.count("frames", x.sim.frames);
    let nontrivial = match plan.prop.as_str() {
        "C12" => stats.get("frames in which a vertex moved") > 0,
        "C13" => x.fresh > 1,
        _ => x.sim.frames > 20,
    };
    let v = match r {
        Ok(()) => serde_json::json!({"digest": x.hist, "nontrivial": nontrivial}),
        Err((c, d)) => serde_json::json!({"class": c, "detail": d}),
    };
    serde_json::json!({"v": v, "stats": serde_json::to_value(&stats).unwrap()})
}

pub fn execute(plan: &Plan, st: &mut Stats) -> Verdict {
    let limit_ms = 30_000;
    let (s, status, timed_out) = unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let peer = if plan.prop == "C13" { peer::start(fds[1], plan.hash) } else { -1 };
            let v = std::thread::Builder::new().stack_size(64 << 20).spawn({
                let p = plan.clone();
                move || body(&p, fds[1], peer)
            });
            let v = v.unwrap().join().unwrap_or(Value::Null);
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(v.to_string().as_bytes());
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        let mut timed_out = false;
        let t0 = std::time::Instant::now();
        loop {
            let left = limit_ms - t0.elapsed().as_millis() as i64;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            if left <= 0 || libc::poll(&mut p, 1, left as i32) == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut buf = [0u8; 65536];
            match f.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => out.extend_from_slice(&buf[..n]),
                Err(_) => break,
            }
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        (String::from_utf8_lossy(&out).into_owned(), status, timed_out)
    };
    let own = plan.prop == "C11";
    let plan_v = || serde_json::to_value(plan).unwrap();
    if timed_out {
        return Verdict::Harness(format!("a simulated run took more than {} s", limit_ms / 1000));
    }
    let Ok(v) = serde_json::from_str::<Value>(&s) else {
        if own && libc::WIFSIGNALED(status) && libc::WTERMSIG(status) != libc::SIGKILL {
            return Verdict::Fail { class: "crash".into(), detail: format!("the application died of signal {}", libc::WTERMSIG(status)), plan: plan_v() };
        }
        return Verdict::Harness(format!("a run ended with status {status} and said nothing"));
    };
    if v["stats"].is_object() {
        st.merge(serde_json::from_value(v["stats"].clone()).unwrap());
    }
    let r = &v["v"];
    if let Some(c) = r["class"].as_str() {
        let d = r["detail"].as_str().unwrap_or("");
        if !own && (c == "crash" || c == "restless" || c == "hang") {
            // judged by C11
            st.count("runs ended by a crash (judged by C11)", 1);
            return Verdict::Pass { digest: fnv(d.as_bytes()), nontrivial: false };
        }
        return Verdict::Fail { class: c.into(), detail: d.into(), plan: plan_v() };
    }
    Verdict::Pass { digest: r["digest"].as_u64().unwrap_or(0), nontrivial: r["nontrivial"].as_bool().unwrap_or(false) }
}

// ---------------------------------------------------------------------------------- generation

const SCENES: [&str; 3] = ["Polyline Offset", "Polyline Boolean", "Multi Polyline Offset"];
const MODES: [&[&str]; 3] = [&["Offset", "Raw Offset", "Raw Offset Segments"], &["None", "Or", "And", "Not", "Xor"], &[]];

struct Gen {
    r: Rng,
    ops: Vec<Op>,
    /// chance that a frame runs between two events
    p_frame: f64,
    p_fault: [f64; 4],
    /// chance of an unrelated event in the middle of a gesture
    p_mid: f64,
    dt: u32,
    scene: usize,
    extreme: bool,
}

impl Gen {
    fn fault(&mut self) -> Fault {
        let x = self.r.f();
        let mut acc = 0.0;
        for (i, p) in self.p_fault.iter().enumerate() {
            acc += p;
            if x < acc {
                return match i {
                    0 => Fault::Drop,
                    1 => Fault::Dup,
                    2 => Fault::Delay(self.r.below(4) as u8),
                    _ => Fault::Swap,
                };
            }
        }
        Fault::None
    }
    fn frame(&mut self) {
        let ms = match self.r.below(12) {
            0 => 0,
            1 => self.r.range(17, 120) as u32,
            2 => self.r.range(120, 1500) as u32,
            _ => self.dt,
        };
        self.ops.push(Op::Frame(ms));
    }
    fn e(&mut self, e: Ev) {
        let f = self.fault();
        self.ops.push(Op::E(e, f));
        if self.r.chance(self.p_frame) {
            self.frame();
        }
    }
    fn vertex(&mut self) -> Target {
        let j = if self.r.chance(0.6) { 0.0 } else { 9.0 };
        Target::Vertex(self.r.below(30) as u32, self.r.fr(-1.0, 1.0) as f32 * j, self.r.fr(-1.0, 1.0) as f32 * j)
    }
    fn place(&mut self) -> Target {
        match self.r.below(6) {
            0 => self.vertex(),
            1 => Target::Frac(self.r.f() as f32, self.r.f() as f32),
            2 => Target::By(self.r.fr(-40.0, 40.0) as f32, self.r.fr(-40.0, 40.0) as f32),
            _ => Target::Plot(self.r.fr(-0.02, 1.02) as f32, self.r.fr(-0.02, 1.02) as f32),
        }
    }
    fn button(&mut self) -> u8 {
        if self.r.chance(0.88) { 0 } else { self.r.below(5) as u8 }
    }
    fn click(&mut self, t: Target) {
        self.e(Ev::Move(t));
        if self.r.chance(0.8) {
            self.frame();
        }
        self.e(Ev::Press(0));
        if self.r.chance(0.8) {
            self.frame();
        }
        self.e(Ev::Release(0));
        self.frame();
    }
    fn mid(&mut self) {
        if !self.r.chance(self.p_mid) {
            return;
        }
        match self.r.below(8) {
            0 => {
                let b = self.r.below(3) as u8;
                self.e(Ev::Press(b));
            }
            1 => {
                let b = self.r.below(3) as u8;
                self.e(Ev::Release(b));
            }
            2 => self.switch_assist(),
            3 => self.mode(true),
            4 => self.wheel(),
            5 => self.key(),
            6 => self.window(),
            _ => {
                self.e(Ev::Gone);
            }
        }
    }
    fn drag(&mut self) {
        let b = self.button();
        let from = if self.r.chance(0.85) { self.vertex() } else { self.place() };
        self.e(Ev::Move(from));
        if self.r.chance(0.7) {
            self.frame();
        }
        self.e(Ev::Press(b));
        let n = 1 + self.r.below(6);
        let style = self.r.below(5);
        for i in 0..n {
            let t = match style {
                // onto another vertex: degenerate geometry
                0 if i + 1 == n => Target::Vertex(self.r.below(30) as u32, 0.0, 0.0),
                1 => Target::By(self.r.fr(-6.0, 6.0) as f32, self.r.fr(-6.0, 6.0) as f32),
                2 => Target::Plot(self.r.fr(-0.3, 1.3) as f32, self.r.fr(-0.3, 1.3) as f32),
                _ => Target::By(self.r.fr(-90.0, 90.0) as f32, self.r.fr(-90.0, 90.0) as f32),
            };
            self.e(Ev::Move(t));
            self.mid();
        }
        self.e(Ev::Release(b));
        if self.r.chance(0.6) {
            self.frame();
        }
        if self.r.chance(0.5) {
            // move on with the button up
            let t = self.place();
            self.e(Ev::Move(t));
            self.frame();
        }
    }
    fn switch_assist(&mut self) {
        let s = self.r.below(3);
        self.scene = s;
        self.e(Ev::Assist(Target::Named(SCENES[s].into()), 0, 0.0));
    }
    fn switch(&mut self) {
        if self.r.chance(0.3) {
            return self.switch_assist();
        }
        let s = self.r.below(3);
        self.scene = s;
        self.click(Target::Named(SCENES[s].into()));
    }
    fn mode(&mut self, assist: bool) {
        let m = MODES[self.scene];
        if m.is_empty() {
            return;
        }
        let name = Target::Named((*self.r.pick(m)).into());
        if assist || self.r.chance(0.5) {
            self.e(Ev::Assist(Target::Named("Mode".into()), 0, 0.0));
            self.frame();
            self.e(Ev::Assist(name, 0, 0.0));
        } else {
            self.click(Target::Named("Mode".into()));
            self.frame();
            self.click(name);
        }
    }
    fn wheel(&mut self) {
        let big = if self.extreme && self.r.chance(0.4) { 2000.0 } else { 60.0 };
        let m = (self.r.below(3) as u8) << 4 | if self.r.chance(0.6) { 2 } else { 0 };
        let (x, y) = (self.r.fr(-big, big) as f32 * if self.r.chance(0.3) { 1.0 } else { 0.0 }, self.r.fr(-big, big) as f32);
        self.e(Ev::Wheel(x, y, m));
    }
    fn key(&mut self) {
        let k = self.r.below(KEYS.len()) as u8;
        let m = if self.r.chance(0.7) { 0 } else { self.r.below(8) as u8 };
        self.e(Ev::Key(k, m));
    }
    fn window(&mut self) {
        match self.r.below(6) {
            0 | 1 => {
                let (w, h) = if self.extreme && self.r.chance(0.3) {
                    (*self.r.pick(&[0.0, 1.0, 20.0, 300.0, 10000.0]), *self.r.pick(&[0.0, 1.0, 20.0, 220.0, 10000.0]))
                } else {
                    (self.r.fr(300.0, 1600.0) as f32, self.r.fr(220.0, 1200.0) as f32)
                };
                self.e(Ev::Resize(w, h));
            }
            2 => {
                let f = self.r.chance(0.5);
                self.e(Ev::Focus(f));
            }
            3 => {
                let p = *self.r.pick(&[0.5, 1.0, 1.25, 2.0, 3.0]);
                self.e(Ev::Ppp(p));
            }
            4 => {
                let d = self.r.chance(0.5);
                self.e(Ev::Theme(d));
            }
            _ => self.e(Ev::Gone),
        }
    }
    fn number(&mut self, f: f32) -> Target {
        if self.r.chance(0.5) { Target::Number(self.r.below(6) as u32, f) } else { Target::Widget(self.r.below(24) as u32, f) }
    }
    /// One setting at a time, looking at what is shown in between.
    fn tweak(&mut self) {
        self.ops.push(Op::Settle);
        for _ in 0..1 + self.r.below(3) {
            match self.r.below(5) {
                0 => self.setting(),
                1 => {
                    let n = *self.r.pick(&["Fill", "Show Vertexes", "Handle Self Intersects"]);
                    self.e(Ev::Assist(Target::Named(n.into()), 0, 0.0));
                }
                2 => self.mode(true),
                _ => {
                    let t = Target::Number(self.r.below(6) as u32, 0.5);
                    let v = match self.r.below(3) {
                        0 => self.r.range(0, 12) as f64,
                        1 => self.r.range(-6, 6) as f64 * 0.5,
                        _ => self.r.range(0, 60) as f64,
                    };
                    let a = *self.r.pick(&[4, 4, 4, 2, 3]);
                    self.e(Ev::Assist(t, a, v));
                }
            }
            self.frame();
            self.ops.push(Op::Settle);
        }
    }
    fn setting(&mut self) {
        match self.r.below(8) {
            0 => {
                let t = Target::Named("Zoom to Fit".into());
                self.click(t);
            }
            1 => {
                let n = *self.r.pick(&["Fill", "Show Vertexes", "Handle Self Intersects"]);
                self.click(Target::Named(n.into()));
            }
            2 | 3 => {
                // numbers, through assistive technology or the keyboard
                let t = self.number(0.5);
                let v = match self.r.below(6) {
                    0 => 0.0,
                    1 => self.r.range(-100, 100) as f64,
                    2 => self.r.range(-6, 6) as f64 * 0.5,
                    3 => self.r.range(0, 100) as f64,
                    4 if self.extreme => *self.r.pick(&[1e300, -1e300, 1e-300, 1e9]),
                    _ => self.r.fr(-10.0, 10.0),
                };
                let a = if self.r.chance(0.7) { 4 } else { 1 + self.r.below(3) as u8 };
                self.e(Ev::Assist(t, a, v));
                self.frame();
            }
            4 => {
                let t = self.number(0.5);
                self.e(Ev::Assist(t, 1, 0.0));
                self.frame();
                if self.r.chance(0.5) {
                    self.e(Ev::Key(2, 0));
                    self.frame();
                }
                self.e(Ev::Key(10, 2));
                let s: &str = if self.extreme {
                    *self.r.pick(&["5", "-3", "0", "nan", "inf", "-inf", "1e308", "abc", "", "1e-300", "100", "2.25"])
                } else {
                    *self.r.pick(&["5", "-3", "0", "100", "2.25", "0.5", "-0.5", "1", "7"])
                };
                self.e(Ev::Text(s.into()));
                self.frame();
                self.e(Ev::Key(2, 0));
                self.frame();
            }
            5 => {
                // drag a slider
                let f = self.r.f() as f32;
                let t = self.number(f);
                self.e(Ev::Move(t));
                self.frame();
                self.e(Ev::Press(0));
                for _ in 0..1 + self.r.below(4) {
                    let d = self.r.fr(-30.0, 30.0) as f32;
                    self.e(Ev::Move(Target::By(d, 0.0)));
                }
                self.e(Ev::Release(0));
                self.frame();
            }
            6 => {
                let n = *self.r.pick(&["🔧 Settings", "Show Grid", "Show Axes", "Show Cursor Position", "Reset Default"]);
                self.click(Target::Named(n.into()));
            }
            _ => {
                let n = self.r.below(40) as u32;
                self.click(Target::Widget(n, 0.5));
            }
        }
    }
}

pub fn generate(prop: &str, seed: u64, run: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(mix(mix(seed, fnv(prop.as_bytes())), run));
    let faulty = r.chance(0.6);
    let f = |r: &mut Rng, m: f64| if r.chance(0.5) { r.f() * m } else { 0.0 };
    let p_fault = if faulty { [f(&mut r, 0.12), f(&mut r, 0.12), f(&mut r, 0.12), f(&mut r, 0.12)] } else { [0.0; 4] };
    let p_frame = *r.pick(&[1.0, 0.9, 0.6, 0.3, 0.1]);
    let p_mid = if r.chance(0.5) { 0.0 } else { r.f() * 0.4 };
    let hash = r.u64();
    let (w, h, ppp) = (r.fr(500.0, 1400.0) as f32, r.fr(350.0, 1000.0) as f32, *r.pick(&[1.0, 1.0, 1.0, 1.5, 2.0]));
    let dt = *r.pick(&[16, 16, 16, 7, 33]);
    let extreme = match prop {
        "C11" => r.chance(0.6),
        "C12" => r.chance(0.05),
        _ => r.chance(0.15),
    };
    let weights: [u32; 9] = match prop {
        //        drag switch mode wheel key window setting settle misc
        "C12" => [60, 6, 4, 4, 2, 4, 6, 4, 4],
        "C13" => [26, 9, 10, 6, 2, 4, 22, 14, 2],
        _ => [30, 8, 10, 12, 6, 10, 20, 3, 8],
    };
    let n = 4 + r.below(if thorough { 60 } else { 26 });
    let mut g = Gen { r, ops: vec![], p_frame, p_fault, p_mid, dt, scene: 0, extreme };
    for _ in 0..2 {
        g.frame();
    }
    if g.r.chance(0.75) {
        let s = g.r.below(3);
        g.scene = s;
        g.ops.push(Op::E(Ev::Assist(Target::Named(SCENES[s].into()), 0, 0.0), Fault::None));
        g.frame();
        g.frame();
    }
    for _ in 0..n {
        match g.r.weighted(&weights) {
            0 => g.drag(),
            1 => g.switch(),
            2 => {
                let a = g.r.chance(0.5);
                g.mode(a)
            }
            3 => {
                let t = g.place();
                g.e(Ev::Move(t));
                for _ in 0..1 + g.r.below(5) {
                    if g.r.chance(0.15) {
                        let f = g.r.fr(0.2, 3.0) as f32;
                        g.e(Ev::Pinch(f));
                    } else {
                        g.wheel();
                    }
                }
            }
            4 => {
                for _ in 0..1 + g.r.below(4) {
                    g.key();
                }
            }
            5 => g.window(),
            6 => g.setting(),
            7 if prop != "C12" && g.r.chance(0.4) => g.tweak(),
            7 => g.ops.push(Op::Settle),
            _ => match g.r.below(4) {
                0 => {
                    let k = g.r.below(4) as u8;
                    g.ops.push(Op::Restart(k));
                    g.scene = 0;
                }
                1 => {
                    let ms = *g.r.pick(&[1_000, 60_000, 86_400_000, 4_000_000_000u32]);
                    g.ops.push(Op::Frame(ms));
                }
                2 => {
                    for i in 0..2 + g.r.below(6) {
                        let t = g.place();
                        let id = g.r.below(2) as u8;
                        let ph = if i == 0 { 0 } else { g.r.below(4) as u8 };
                        g.e(Ev::Touch(id, ph, t));
                    }
                }
                _ => {
                    let t = g.place();
                    let b = g.button();
                    g.e(Ev::Move(t));
                    g.e(Ev::Press(b));
                    g.e(Ev::Release(b));
                    if g.r.chance(0.5) {
                        g.e(Ev::Press(b));
                        g.e(Ev::Release(b));
                    }
                }
            },
        }
    }
    Plan { prop: prop.into(), seed, run, hash, w, h, ppp, ops: g.ops }
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let n = p.ops.len();
    let mut len = n / 2;
    while len >= 1 {
        let mut i = 0;
        while i < n {
            let j = (i + len).min(n);
            let mut q = p.clone();
            q.ops.drain(i..j);
            out.push(q);
            i += len;
        }
        len /= 2;
    }
    for i in 0..n {
        let mut with = |o: Op| {
            let mut q = p.clone();
            q.ops[i] = o;
            out.push(q);
        };
        match &p.ops[i] {
            Op::E(e, f) if *f != Fault::None => with(Op::E(e.clone(), Fault::None)),
            Op::E(Ev::Move(Target::Vertex(k, dx, dy)), f) if *dx != 0.0 || *dy != 0.0 => with(Op::E(Ev::Move(Target::Vertex(*k, 0.0, 0.0)), *f)),
            Op::E(Ev::Move(Target::By(dx, dy)), f) if (dx.fract() != 0.0 || dy.fract() != 0.0) => with(Op::E(Ev::Move(Target::By(dx.round(), dy.round())), *f)),
            Op::E(Ev::Press(b), f) if *b != 0 => with(Op::E(Ev::Press(0), *f)),
            Op::Frame(ms) if *ms != 16 => with(Op::Frame(16)),
            _ => {}
        }
    }
    if p.w != 800.0 || p.h != 600.0 || p.ppp != 1.0 {
        let mut q = p.clone();
        (q.w, q.h, q.ppp) = (800.0, 600.0, 1.0);
        out.push(q);
    }
    out
}

pub fn rule(prop: &str) -> String {
    match prop {
        "C11" => "one evaluation is one simulated session of the application: a window system delivering pointer, key, wheel, touch, assistive, resize, scale and focus events (some lost, duplicated, delayed, reordered, batched into one frame), clock jumps, crashes and restarts; non-trivial: more than 20 frames; every frame must complete, and after the last event the application must stop asking for frames within 400 frames".into(),
        "C12" => "one evaluation is one simulated session; after every frame the geometry is compared with the frame before: nothing moves with all buttons up, only a vertex in reach of a press moves, it moves with the pointer, an undisturbed drag moves it in every frame, nothing else changes; non-trivial: a vertex moved".into(),
        _ => "one evaluation is one simulated session; whenever the application is at rest, every triangle and circle it shows in the plot is compared with those of a freshly started application given the same polylines, settings and view; non-trivial: at least two comparisons".into(),
    }
}

pub fn assumptions(_prop: &str) -> Vec<String> {
    vec![
        "the window system is modelled by egui's own input interface (RawInput); eframe's and winit's translation of system events is not run".into(),
        "the clock never runs backwards (eframe reads a monotonic clock); it may jump forward by weeks".into(),
        "event coordinates are finite and below 1e5 points".into(),
        "a session whose frames take longer than 30 s of real time is not judged".into(),
    ]
}
