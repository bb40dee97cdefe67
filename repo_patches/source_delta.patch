From 6183e3a51531d7595b4ac6d63dde469c7d94103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 1/8] fix: free the polylines owned by a list in
 cavc_plinelist_f

The function is documented to free the list and all polylines owned by
it, but only the list itself was freed.
---
 cavalier_contours_ffi/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..9a15994 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,11 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            for pline in Box::from_raw(plinelist).0 {
+                cavc_pline_f(pline);
+            }
+        }
     }
 }
 
-- 
2.43.0


From dc8d5de47c780b895d2a0e534d3803dd05dbd765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 2/8] fix: do not leak or half hand out result lists when an
 allocation fails

cavc_plinelist::from_internal leaked the polylines already boxed when a
later allocation panicked, and cavc_pline_boolean had already written
the positive list to the caller when building the negative list failed.
---
 cavalier_contours_ffi/src/lib.rs | 40 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 9a15994..eaaf33b 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -221,12 +221,32 @@ impl cavc_plinelist {
     where
         I: IntoIterator<Item = Polyline>,
     {
-        let r = plines
+        // make every allocation before giving up ownership so nothing leaks if one of them panics
+        let boxed: Vec<_> = plines
             .into_iter()
-            .map(|pl| Box::into_raw(Box::new(cavc_pline(pl))))
+            .map(|pl| Box::new(cavc_pline(pl)))
             .collect();
+        let mut r = Box::new(cavc_plinelist(Vec::with_capacity(boxed.len())));
+        r.0.extend(boxed.into_iter().map(Box::into_raw));
 
-        Box::into_raw(Box::new(cavc_plinelist(r)))
+        Box::into_raw(r)
+    }
+}
+
+/// Frees a [cavc_plinelist] unless it is released (used while more than one list is being created).
+struct cavc_plinelist_guard(*mut cavc_plinelist);
+
+impl cavc_plinelist_guard {
+    fn release(self) -> *mut cavc_plinelist {
+        let r = self.0;
+        std::mem::forget(self);
+        r
+    }
+}
+
+impl Drop for cavc_plinelist_guard {
+    fn drop(&mut self) {
+        unsafe { cavc_plinelist_f(self.0) }
     }
 }
 
@@ -1028,13 +1048,15 @@ pub unsafe extern "C" fn cavc_pline_boolean(
             pline1.boolean_opt(pline2, op, options)
         };
 
+        // create both lists before handing out either so the call hands out both or none
+        let pos = cavc_plinelist_guard(cavc_plinelist::from_internal(
+            results.pos_plines.into_iter().map(|p| p.pline),
+        ));
+        let neg = cavc_plinelist::from_internal(results.neg_plines.into_iter().map(|p| p.pline));
+
         unsafe {
-            pos_plines.write(cavc_plinelist::from_internal(
-                results.pos_plines.into_iter().map(|p| p.pline),
-            ));
-            neg_plines.write(cavc_plinelist::from_internal(
-                results.neg_plines.into_iter().map(|p| p.pline),
-            ));
+            pos_plines.write(pos.release());
+            neg_plines.write(neg);
         }
         0
     })
-- 
2.43.0


From 900349417eb00c79c510925b46eec725633b8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 3/8] fix: announce two elements when serializing a Vector2

Vector2 announced a tuple of three elements and wrote two, so formats that
store the announced length produced data nobody can read back.
---
 cavalier_contours/src/core/math/vector2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/vector2.rs b/cavalier_contours/src/core/math/vector2.rs
index 273952d..21b7943 100644
--- a/cavalier_contours/src/core/math/vector2.rs
+++ b/cavalier_contours/src/core/math/vector2.rs
@@ -124,7 +124,7 @@ mod serde_impl {
         where
             S: serde::Serializer,
         {
-            let mut tuple = serializer.serialize_tuple(3)?;
+            let mut tuple = serializer.serialize_tuple(2)?;
             tuple.serialize_element(&self.x)?;
             tuple.serialize_element(&self.y)?;
             tuple.end()
-- 
2.43.0


From d3b6052cd25b4924c93f4697207879b586d46da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 4/8] fix: report view data starting past the end of its source
 as invalid

validate_for_source indexed the source out of bounds instead of returning a
validation result when start_index was not the index of a source vertex.
---
 cavalier_contours/src/polyline/pline_view.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cavalier_contours/src/polyline/pline_view.rs b/cavalier_contours/src/polyline/pline_view.rs
index 5b2ba6b..1e71311 100644
--- a/cavalier_contours/src/polyline/pline_view.rs
+++ b/cavalier_contours/src/polyline/pline_view.rs
@@ -613,6 +613,13 @@ where
             };
         }
 
+        // start index must be the index of a vertex of the source polyline
+        if self.start_index >= source.vertex_count() {
+            return ViewDataValidation::UpdatedStartNotOnSegment {
+                start_point: self.updated_start.pos(),
+            };
+        }
+
         let validation_eps = T::from(Self::VALIDATION_EPS).unwrap();
 
         let point_is_on_segment = |seg_index, point: Vector2<T>| {
-- 
2.43.0


From 8b4fb5921f3e9aa6533465cb02d933bda2ff1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 5/8] sim: expose application state to a simulator behind
 cfg(cavc_sim)

---
 cavalier_contours_ui/src/app.rs               | 11 +++++
 cavalier_contours_ui/src/lib.rs               |  4 ++
 cavalier_contours_ui/src/plotting/plines.rs   |  3 ++
 .../src/scenes/demo_scenes_pane.rs            | 25 +++++++++++
 cavalier_contours_ui/src/scenes/mod.rs        |  6 +++
 .../src/scenes/multi_pline_offset_scene.rs    | 17 ++++++++
 .../src/scenes/pline_boolean_scene.rs         | 32 +++++++++++++++
 .../src/scenes/pline_offset_scene.rs          | 35 ++++++++++++++++
 cavalier_contours_ui/src/sim.rs               | 41 +++++++++++++++++++
 9 files changed, 174 insertions(+)
 create mode 100644 cavalier_contours_ui/src/sim.rs

diff --git a/cavalier_contours_ui/src/app.rs b/cavalier_contours_ui/src/app.rs
index 026c4f0..6db5afc 100644
--- a/cavalier_contours_ui/src/app.rs
+++ b/cavalier_contours_ui/src/app.rs
@@ -31,6 +31,17 @@ impl MainApp {
     }
 }
 
+#[cfg(cavc_sim)]
+impl MainApp {
+    pub fn sim_state(&self) -> crate::sim::AppState {
+        self.scenes.sim_state()
+    }
+
+    pub fn sim_restore(&mut self, state: &crate::sim::AppState) {
+        self.scenes.sim_restore(state);
+    }
+}
+
 impl eframe::App for MainApp {
     /// Called by the frame work to save state before shutdown.
     fn save(&mut self, storage: &mut dyn eframe::Storage) {
diff --git a/cavalier_contours_ui/src/lib.rs b/cavalier_contours_ui/src/lib.rs
index 5d5361e..6b5c5f2 100644
--- a/cavalier_contours_ui/src/lib.rs
+++ b/cavalier_contours_ui/src/lib.rs
@@ -1,4 +1,8 @@
+#![allow(unexpected_cfgs)] // cfg(cavc_sim) is set by hand only, see sim.rs
+
 mod app;
 pub use app::MainApp;
 pub mod plotting;
 mod scenes;
+#[cfg(cavc_sim)]
+pub mod sim;
diff --git a/cavalier_contours_ui/src/plotting/plines.rs b/cavalier_contours_ui/src/plotting/plines.rs
index 761d630..29168d4 100644
--- a/cavalier_contours_ui/src/plotting/plines.rs
+++ b/cavalier_contours_ui/src/plotting/plines.rs
@@ -166,6 +166,9 @@ where
     T: PlinesPlotData,
 {
     fn shapes(&self, _ui: &egui::Ui, transform: &PlotTransform, shapes: &mut Vec<egui::Shape>) {
+        #[cfg(cavc_sim)]
+        crate::sim::observe_transform(transform);
+
         if !plot_bounds_valid(transform.bounds()) {
             return;
         }
diff --git a/cavalier_contours_ui/src/scenes/demo_scenes_pane.rs b/cavalier_contours_ui/src/scenes/demo_scenes_pane.rs
index b3d98f4..29ec0c2 100644
--- a/cavalier_contours_ui/src/scenes/demo_scenes_pane.rs
+++ b/cavalier_contours_ui/src/scenes/demo_scenes_pane.rs
@@ -70,3 +70,28 @@ impl DemoScenes {
         });
     }
 }
+
+#[cfg(cavc_sim)]
+impl DemoScenes {
+    pub fn sim_state(&self) -> crate::sim::AppState {
+        crate::sim::AppState {
+            selected: self.selected,
+            settings_open: self.settings_open,
+            show_grid: self.settings.show_grid,
+            show_axes: self.settings.show_axes,
+            show_cursor_pos: self.settings.show_cursor_pos,
+            scenes: self.scenes.iter().map(|s| s.sim_state()).collect(),
+        }
+    }
+
+    pub fn sim_restore(&mut self, state: &crate::sim::AppState) {
+        self.selected = state.selected;
+        self.settings_open = state.settings_open;
+        self.settings.show_grid = state.show_grid;
+        self.settings.show_axes = state.show_axes;
+        self.settings.show_cursor_pos = state.show_cursor_pos;
+        for (scene, state) in self.scenes.iter_mut().zip(&state.scenes) {
+            scene.sim_restore(state);
+        }
+    }
+}
diff --git a/cavalier_contours_ui/src/scenes/mod.rs b/cavalier_contours_ui/src/scenes/mod.rs
index cb2afb3..184ec12 100644
--- a/cavalier_contours_ui/src/scenes/mod.rs
+++ b/cavalier_contours_ui/src/scenes/mod.rs
@@ -11,6 +11,12 @@ pub trait Scene {
     fn name(&self) -> &str;
 
     fn ui(&mut self, ui: &mut egui::Ui, settings: &SceneSettings, init: bool);
+
+    #[cfg(cavc_sim)]
+    fn sim_state(&self) -> crate::sim::SceneState;
+
+    #[cfg(cavc_sim)]
+    fn sim_restore(&mut self, state: &crate::sim::SceneState);
 }
 
 fn controls_side_panel(id: impl Into<egui::Id>) -> egui::SidePanel {
diff --git a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
index 1170f9a..f498ceb 100644
--- a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
@@ -98,6 +98,23 @@ impl Scene for MultiPlineOffsetScene {
             interaction_state,
         );
     }
+
+    #[cfg(cavc_sim)]
+    fn sim_state(&self) -> crate::sim::SceneState {
+        crate::sim::SceneState {
+            plines: self.plines.clone(),
+            offset: self.offset,
+            max_offset_count: self.max_offset_count,
+            ..Default::default()
+        }
+    }
+
+    #[cfg(cavc_sim)]
+    fn sim_restore(&mut self, state: &crate::sim::SceneState) {
+        self.plines = state.plines.clone();
+        self.offset = state.offset;
+        self.max_offset_count = state.max_offset_count;
+    }
 }
 
 fn controls_panel(
diff --git a/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs b/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
index ee89345..4462448 100644
--- a/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
@@ -124,6 +124,38 @@ impl Scene for PlineBooleanScene {
             interaction_state,
         );
     }
+
+    #[cfg(cavc_sim)]
+    fn sim_state(&self) -> crate::sim::SceneState {
+        crate::sim::SceneState {
+            plines: vec![self.pline1.clone(), self.pline2.clone()],
+            mode: match self.mode {
+                Mode::None => 0,
+                Mode::Or => 1,
+                Mode::And => 2,
+                Mode::Not => 3,
+                Mode::Xor => 4,
+            },
+            fill: self.fill,
+            show_vertexes: self.show_vertexes,
+            ..Default::default()
+        }
+    }
+
+    #[cfg(cavc_sim)]
+    fn sim_restore(&mut self, state: &crate::sim::SceneState) {
+        self.pline1 = state.plines[0].clone();
+        self.pline2 = state.plines[1].clone();
+        self.mode = match state.mode {
+            0 => Mode::None,
+            1 => Mode::Or,
+            2 => Mode::And,
+            3 => Mode::Not,
+            _ => Mode::Xor,
+        };
+        self.fill = state.fill;
+        self.show_vertexes = state.show_vertexes;
+    }
 }
 
 fn controls_panel(
diff --git a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
index 79775de..a875ddd 100644
--- a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
@@ -116,6 +116,41 @@ impl Scene for PlineOffsetScene {
         interaction_state.zoom_to_fit |= init;
         plot_area(ui, settings, pline, mode, offset, interaction_state);
     }
+
+    #[cfg(cavc_sim)]
+    fn sim_state(&self) -> crate::sim::SceneState {
+        let mut state = crate::sim::SceneState {
+            plines: vec![self.pline.clone()],
+            offset: self.offset,
+            ..Default::default()
+        };
+        match self.mode {
+            Mode::Offset {
+                handle_self_intersects,
+                max_offset_count,
+            } => {
+                state.handle_self_intersects = handle_self_intersects;
+                state.max_offset_count = max_offset_count;
+            }
+            Mode::RawOffset => state.mode = 1,
+            Mode::RawOffsetSegments => state.mode = 2,
+        }
+        state
+    }
+
+    #[cfg(cavc_sim)]
+    fn sim_restore(&mut self, state: &crate::sim::SceneState) {
+        self.pline = state.plines[0].clone();
+        self.offset = state.offset;
+        self.mode = match state.mode {
+            0 => Mode::Offset {
+                handle_self_intersects: state.handle_self_intersects,
+                max_offset_count: state.max_offset_count,
+            },
+            1 => Mode::RawOffset,
+            _ => Mode::RawOffsetSegments,
+        };
+    }
 }
 
 fn controls_panel(
diff --git a/cavalier_contours_ui/src/sim.rs b/cavalier_contours_ui/src/sim.rs
new file mode 100644
index 0000000..0817077
--- /dev/null
+++ b/cavalier_contours_ui/src/sim.rs
@@ -0,0 +1,41 @@
+//! Hooks for simulating the application. Only compiled with `--cfg cavc_sim`.
+use cavalier_contours::polyline::Polyline;
+use egui_plot::PlotTransform;
+use std::cell::RefCell;
+
+/// What a scene holds on behalf of its user, members a scene does not have are left default.
+#[derive(Clone, Debug, Default)]
+pub struct SceneState {
+    pub plines: Vec<Polyline>,
+    pub mode: usize,
+    pub offset: f64,
+    pub max_offset_count: usize,
+    pub handle_self_intersects: bool,
+    pub fill: bool,
+    pub show_vertexes: bool,
+}
+
+/// What the application holds on behalf of its user.
+#[derive(Clone, Debug, Default)]
+pub struct AppState {
+    pub selected: Option<usize>,
+    pub settings_open: bool,
+    pub show_grid: bool,
+    pub show_axes: bool,
+    pub show_cursor_pos: bool,
+    pub scenes: Vec<SceneState>,
+}
+
+thread_local! {
+    static TRANSFORM: RefCell<Option<PlotTransform>> = const { RefCell::new(None) };
+}
+
+/// Called when the plot is painted.
+pub(crate) fn observe_transform(transform: &PlotTransform) {
+    TRANSFORM.with(|t| *t.borrow_mut() = Some(*transform));
+}
+
+/// The transform of the plot painted since the last call.
+pub fn take_transform() -> Option<PlotTransform> {
+    TRANSFORM.with(|t| t.borrow_mut().take())
+}
-- 
2.43.0


From acf0719b33f3112be52d3dd791443280d4283c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 6/8] fix: skip what cannot be tessellated instead of crashing

---
 cavalier_contours_ui/src/plotting/plines.rs   | 77 ++++++++++---------
 .../src/plotting/raw_pline_offset_segs.rs     | 13 ++--
 2 files changed, 46 insertions(+), 44 deletions(-)

diff --git a/cavalier_contours_ui/src/plotting/plines.rs b/cavalier_contours_ui/src/plotting/plines.rs
index 29168d4..e3cae06 100644
--- a/cavalier_contours_ui/src/plotting/plines.rs
+++ b/cavalier_contours_ui/src/plotting/plines.rs
@@ -227,25 +227,27 @@ where
         if self.fill_color != epaint::Color32::TRANSPARENT {
             let mut lyon_mesh: VertexBuffers<_, u32> = VertexBuffers::new();
             let mut fill_tess = FillTessellator::new();
-            fill_tess
-                .tessellate_path(
-                    path.as_slice(),
-                    &FillOptions::DEFAULT,
-                    &mut BuffersBuilder::new(
-                        &mut lyon_mesh,
-                        VertexConstructor {
-                            color: self.fill_color,
-                        },
-                    ),
-                )
-                .unwrap();
-
-            let mesh = epaint::Mesh {
-                vertices: lyon_mesh.vertices,
-                indices: lyon_mesh.indices,
-                texture_id: Default::default(),
-            };
-            shapes.push(egui::Shape::mesh(Arc::new(mesh)));
+            let result = fill_tess.tessellate_path(
+                path.as_slice(),
+                &FillOptions::DEFAULT,
+                &mut BuffersBuilder::new(
+                    &mut lyon_mesh,
+                    VertexConstructor {
+                        color: self.fill_color,
+                    },
+                ),
+            );
+
+            // tessellation fails if positions are not representable on the screen (e.g., when super
+            // zoomed out), there is nothing to fill then
+            if result.is_ok() {
+                let mesh = epaint::Mesh {
+                    vertices: lyon_mesh.vertices,
+                    indices: lyon_mesh.indices,
+                    texture_id: Default::default(),
+                };
+                shapes.push(egui::Shape::mesh(Arc::new(mesh)));
+            }
         }
 
         if self.stroke_color != epaint::Color32::TRANSPARENT {
@@ -257,24 +259,25 @@ where
             let mut stroke_tess = StrokeTessellator::new();
             let line_width = 1.0;
 
-            stroke_tess
-                .tessellate(
-                    stroke_path,
-                    &StrokeOptions::DEFAULT.with_line_width(line_width),
-                    &mut BuffersBuilder::new(
-                        &mut lyon_mesh,
-                        VertexConstructor {
-                            color: self.stroke_color,
-                        },
-                    ),
-                )
-                .unwrap();
-            let mesh = epaint::Mesh {
-                vertices: lyon_mesh.vertices,
-                indices: lyon_mesh.indices,
-                texture_id: Default::default(),
-            };
-            shapes.push(egui::Shape::mesh(Arc::new(mesh)));
+            let result = stroke_tess.tessellate(
+                stroke_path,
+                &StrokeOptions::DEFAULT.with_line_width(line_width),
+                &mut BuffersBuilder::new(
+                    &mut lyon_mesh,
+                    VertexConstructor {
+                        color: self.stroke_color,
+                    },
+                ),
+            );
+
+            if result.is_ok() {
+                let mesh = epaint::Mesh {
+                    vertices: lyon_mesh.vertices,
+                    indices: lyon_mesh.indices,
+                    texture_id: Default::default(),
+                };
+                shapes.push(egui::Shape::mesh(Arc::new(mesh)));
+            }
         }
 
         if self.vertex_color != epaint::Color32::TRANSPARENT {
diff --git a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
index f8d8820..113de15 100644
--- a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
+++ b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
@@ -117,13 +117,12 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             // benefit as it avoids tessellating stroke segments that are not visible which is
             // significant when zooming in as the number of triangles generated can be very large
             let stroke_path = cull_path(&path, transform.frame());
-            stroke_tess
-                .tessellate(
-                    stroke_path,
-                    &StrokeOptions::DEFAULT.with_line_width(line_width),
-                    &mut BuffersBuilder::new(&mut lyon_mesh, VertexConstructor { color }),
-                )
-                .unwrap();
+            // a segment that fails to tessellate (not representable on the screen) is not drawn
+            let _ = stroke_tess.tessellate(
+                stroke_path,
+                &StrokeOptions::DEFAULT.with_line_width(line_width),
+                &mut BuffersBuilder::new(&mut lyon_mesh, VertexConstructor { color }),
+            );
         }
 
         let mesh = epaint::Mesh {
-- 
2.43.0


From c46286eba32ea8faade9f54b6d6bafbaa2bd59ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 7/8] fix: let go of the grabbed vertex when the scene is
 switched

---
 cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs | 5 +++++
 cavalier_contours_ui/src/scenes/pline_boolean_scene.rs      | 5 +++++
 cavalier_contours_ui/src/scenes/pline_offset_scene.rs       | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
index f498ceb..c634d2d 100644
--- a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
@@ -89,6 +89,11 @@ impl Scene for MultiPlineOffsetScene {
         controls_panel(ui, max_offset_count, offset, interaction_state);
 
         interaction_state.zoom_to_fit |= init;
+        if init {
+            // scene was just switched to, anything still grabbed is from before switching away
+            interaction_state.grabbed_vertex = None;
+            interaction_state.dragging = false;
+        }
         plot_area(
             ui,
             settings,
diff --git a/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs b/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
index 4462448..8f71139 100644
--- a/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
@@ -113,6 +113,11 @@ impl Scene for PlineBooleanScene {
         controls_panel(ui, mode, fill, show_vertexes, interaction_state);
 
         interaction_state.zoom_to_fit |= init;
+        if init {
+            // scene was just switched to, anything still grabbed is from before switching away
+            interaction_state.grabbed_vertex = None;
+            interaction_state.dragging = false;
+        }
         plot_area(
             ui,
             settings,
diff --git a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
index a875ddd..a48f22a 100644
--- a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
@@ -114,6 +114,11 @@ impl Scene for PlineOffsetScene {
         controls_panel(ui, mode, offset, interaction_state);
 
         interaction_state.zoom_to_fit |= init;
+        if init {
+            // scene was just switched to, anything still grabbed is from before switching away
+            interaction_state.grabbed_vertex = None;
+            interaction_state.dragging = false;
+        }
         plot_area(ui, settings, pline, mode, offset, interaction_state);
     }
 
-- 
2.43.0


From 24e6172081a4f404d2943433e4a1a4a3a58fb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 8/8] fix: grab the vertex that was pressed, and only while the
 button is down

---
 .../src/scenes/multi_pline_offset_scene.rs                 | 7 +++++--
 cavalier_contours_ui/src/scenes/pline_boolean_scene.rs     | 7 +++++--
 cavalier_contours_ui/src/scenes/pline_offset_scene.rs      | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
index c634d2d..4a34db9 100644
--- a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
@@ -229,10 +229,13 @@ fn plot_area(
                 );
             } else if *dragging {
                 plot_ui.translate_bounds(-plot_ui.pointer_coordinate_drag_delta());
-            } else if plot_ui.ctx().input(|i| i.pointer.any_pressed()) {
+            } else if plot_ui
+                .ctx()
+                .input(|i| i.pointer.any_pressed() && i.pointer.any_down())
+            {
                 // pointer pressed, check if point grabbed by iterating through points and checking
                 // if point considered "hit"
-                if let Some(coord) = plot_ui.ctx().pointer_interact_pos() {
+                if let Some(coord) = plot_ui.ctx().input(|i| i.pointer.press_origin()) {
                     let iter = plines.iter().enumerate().flat_map(|(pl_idx, pl)| {
                         // required for closure move
                         let plot_ui = &plot_ui;
diff --git a/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs b/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
index 8f71139..07f0685 100644
--- a/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_boolean_scene.rs
@@ -263,10 +263,13 @@ fn plot_area(
                 }
             } else if *dragging {
                 plot_ui.translate_bounds(-plot_ui.pointer_coordinate_drag_delta());
-            } else if plot_ui.ctx().input(|i| i.pointer.any_pressed()) {
+            } else if plot_ui
+                .ctx()
+                .input(|i| i.pointer.any_pressed() && i.pointer.any_down())
+            {
                 // pointer pressed, check if point grabbed by iterating through points and checking
                 // if point considered "hit"
-                if let Some(coord) = plot_ui.ctx().pointer_interact_pos() {
+                if let Some(coord) = plot_ui.ctx().input(|i| i.pointer.press_origin()) {
                     let pline1_iter = pline1.iter_vertexes().enumerate().map(|(i, v)| (1, i, v));
                     let pline2_iter = pline2.iter_vertexes().enumerate().map(|(i, v)| (2, i, v));
 
diff --git a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
index a48f22a..963acda 100644
--- a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
@@ -288,10 +288,13 @@ fn plot_area(
                 );
             } else if *dragging {
                 plot_ui.translate_bounds(-plot_ui.pointer_coordinate_drag_delta());
-            } else if plot_ui.ctx().input(|i| i.pointer.any_pressed()) {
+            } else if plot_ui
+                .ctx()
+                .input(|i| i.pointer.any_pressed() && i.pointer.any_down())
+            {
                 // pointer pressed, check if point grabbed by iterating through points and checking
                 // if point considered "hit"
-                if let Some(coord) = plot_ui.ctx().pointer_interact_pos() {
+                if let Some(coord) = plot_ui.ctx().input(|i| i.pointer.press_origin()) {
                     for (i, pt) in pline
                         .iter_vertexes()
                         .map(|v| plot_ui.screen_from_plot(PlotPoint::new(v.x, v.y)))
-- 
2.43.0

