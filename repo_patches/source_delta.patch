From 27a350dde1203e9ea261a78b0d2b9c227bb93f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 01/46] fix: resolve owned attribute definitions before
 inherited copies

A group that extends another inherits its attribute definitions, possibly with
overrides. Such a copy was registered as the definition when it happened to be
visited before the group that owns it, so unrelated references resolved to the
overridden copy, depending on the order the files were loaded in.
---
 crates/weaver_resolver/src/registry.rs | 75 +++++++++++++++-----------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index ab2376f..d6e0dd4 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -641,43 +641,54 @@ fn resolve_attribute_references<C: crate::SchemaCacheLookup>(
     // This populates the catalog with all local and refinement attribute definitions
     // before resolving attribute references (AttributeSpec::Ref), preventing dependency
     // lookups from preempting local definitions.
+    //
+    // The definitions a group owns go before the copies a group inherited through
+    // `extends`: a copy may carry overrides of the inheriting group, and the first
+    // local attribute to reach the catalog is the one references resolve against.
     let mut init_errors = vec![];
-    for unresolved_group in ureg.groups.iter_mut() {
-        let mut resolved_attr = vec![];
-        let mut still_unresolved = vec![];
-        let group_excluded = is_group_excluded(
-            &unresolved_group.group.annotations,
-            unresolved_group.visibility.as_ref(),
-            &unresolved_group.group.r#type,
-        );
-        for attr in unresolved_group.attributes.drain(..) {
-            if matches!(attr.spec, AttributeSpec::Id { .. }) {
-                match attr_catalog.resolve(
-                    &unresolved_group.group.id,
-                    &unresolved_group.group.prefix,
-                    group_excluded,
-                    &attr.spec,
-                    attr.origin.as_ref(),
-                    unresolved_group.group.lineage.as_mut(),
-                    &ureg.dependencies,
-                    cache_lookup,
-                ) {
-                    Ok(Some(attr_ref)) => {
-                        resolved_attr.push(attr_ref);
-                    }
-                    Ok(None) => still_unresolved.push(attr),
-                    Err(e @ Error::ExcludedFromDependencyResolution { .. }) => {
-                        init_errors.push(e);
-                        still_unresolved.push(attr);
+    for inherited_pass in [false, true] {
+        for unresolved_group in ureg.groups.iter_mut() {
+            let mut resolved_attr = vec![];
+            let mut still_unresolved = vec![];
+            let group_excluded = is_group_excluded(
+                &unresolved_group.group.annotations,
+                unresolved_group.visibility.as_ref(),
+                &unresolved_group.group.r#type,
+            );
+            for attr in unresolved_group.attributes.drain(..) {
+                let inherited = unresolved_group
+                    .group
+                    .lineage
+                    .as_ref()
+                    .is_some_and(|lineage| lineage.has_attribute(&attr.spec.id()));
+                if matches!(attr.spec, AttributeSpec::Id { .. }) && inherited == inherited_pass {
+                    match attr_catalog.resolve(
+                        &unresolved_group.group.id,
+                        &unresolved_group.group.prefix,
+                        group_excluded,
+                        &attr.spec,
+                        attr.origin.as_ref(),
+                        unresolved_group.group.lineage.as_mut(),
+                        &ureg.dependencies,
+                        cache_lookup,
+                    ) {
+                        Ok(Some(attr_ref)) => {
+                            resolved_attr.push(attr_ref);
+                        }
+                        Ok(None) => still_unresolved.push(attr),
+                        Err(e @ Error::ExcludedFromDependencyResolution { .. }) => {
+                            init_errors.push(e);
+                            still_unresolved.push(attr);
+                        }
+                        Err(e) => return Err(e),
                     }
-                    Err(e) => return Err(e),
+                } else {
+                    still_unresolved.push(attr);
                 }
-            } else {
-                still_unresolved.push(attr);
             }
+            unresolved_group.attributes = still_unresolved;
+            unresolved_group.group.attributes.extend(resolved_attr);
         }
-        unresolved_group.attributes = still_unresolved;
-        unresolved_group.group.attributes.extend(resolved_attr);
     }
 
     loop {
-- 
2.43.0


From 603f41c635ad6074c03800463e6ff10e18cf0718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 02/46] fix: keep the requirement level of signals imported
 from a published registry

---
 crates/weaver_resolver/src/imports.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index 5df18a8..0058a8f 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -786,6 +786,7 @@ impl ImportableDependency for V2Schema {
                 Some(GroupLineage::new(v2_provenance(self, &deps, &m.provenance))),
             );
             group.metric_name = Some(m.name.to_string());
+            group.requirement_level = m.requirement_level.clone();
             group.instrument = Some(m.instrument.clone());
             group.unit = Some(m.unit.clone());
             group.entity_associations = to_named_associations(&m.entity_associations);
@@ -817,6 +818,7 @@ impl ImportableDependency for V2Schema {
                 attributes,
                 Some(GroupLineage::new(v2_provenance(self, &deps, &e.provenance))),
             );
+            group.requirement_level = e.requirement_level.clone();
             group.name = Some(e.name.to_string());
             group.entity_associations = to_named_associations(&e.entity_associations);
             _ = origins.insert(
@@ -855,6 +857,7 @@ impl ImportableDependency for V2Schema {
                 attributes,
                 Some(GroupLineage::new(v2_provenance(self, &deps, &e.provenance))),
             );
+            group.requirement_level = e.requirement_level.clone();
             group.name = Some(e.r#type.to_string());
             result.push(group);
         }
@@ -881,6 +884,7 @@ impl ImportableDependency for V2Schema {
                 attributes,
                 Some(GroupLineage::new(v2_provenance(self, &deps, &s.provenance))),
             );
+            group.requirement_level = s.requirement_level.clone();
             group.span_kind = Some(s.kind.clone());
             group.span_name = Some(s.name.clone());
             group.name = Some(s.r#type.to_string());
-- 
2.43.0


From 92ab9f86a35bb49a4b3cbce46707a3f0581ff6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 03/46] fix: keep the origin of a dependency attribute refined
 through an included group

---
 crates/weaver_resolver/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index d6e0dd4..0fe5069 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -1129,7 +1129,11 @@ fn resolve_inheritance_attrs_unified(
                     &mut existing.lineage,
                 );
                 existing.lineage.source_group = parent_group_id.to_owned();
-                existing.origin = parent_attr.origin.clone();
+                // A `ref` overrides the inherited attribute: it stays the attribute of
+                // the registry that defines it.
+                if matches!(parent_attr.spec, AttributeSpec::Id { .. }) {
+                    existing.origin = parent_attr.origin.clone();
+                }
             } else {
                 let lineage = AttributeLineage::inherit_from(parent_group_id, &parent_attr.spec);
                 log::debug!(
-- 
2.43.0


From ef234792d9cc51574b5886998cf1e99ea1b6a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 04/46] fix: check attribute presence on exponential histogram
 data points

---
 .../src/advice/type_advisor.rs                | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index f1836e3..a833deb 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -699,6 +699,36 @@ impl Advisor for TypeAdvisor {
                     Ok(Vec::new())
                 }
             }
+            SampleRef::ExponentialHistogramDataPoint(sample_histogram_data_point) => {
+                if let Some(semconv_metric) = registry_group {
+                    let advice_list = match &*semconv_metric {
+                        VersionedSignal::Group(group) => check_attributes(
+                            &group.attributes,
+                            &sample_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Metric(metric) => check_attributes(
+                            &metric.attributes,
+                            &sample_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Span(_span) => vec![],
+                        VersionedSignal::Event(_event) => vec![],
+                    };
+
+                    // Emit each finding if emitter available
+                    emit_findings(
+                        &advice_list,
+                        &sample,
+                        otlp_emitter.as_deref(),
+                        parent_signal,
+                    );
+
+                    Ok(advice_list)
+                } else {
+                    Ok(Vec::new())
+                }
+            }
             SampleRef::Log(sample_log) => {
                 if let Some(semconv_event) = registry_group {
                     let advice_list = match &*semconv_event {
-- 
2.43.0


From 571e9b62e41729802d09087625a1b3b30a717b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:21 +0000
Subject: [PATCH 05/46] fix: count template coverage independently of finding
 filters

---
 .../weaver_live_check/src/sample_attribute.rs | 27 +++++++------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/crates/weaver_live_check/src/sample_attribute.rs b/crates/weaver_live_check/src/sample_attribute.rs
index 15105c4..02cc20b 100644
--- a/crates/weaver_live_check/src/sample_attribute.rs
+++ b/crates/weaver_live_check/src/sample_attribute.rs
@@ -147,25 +147,12 @@ impl SampleAttribute {
         }
     }
 
-    fn update_stats(&mut self, stats: &mut LiveCheckStatistics) {
+    /// Updates the statistics. A sample that instantiates a template counts
+    /// towards the coverage of the template, whatever findings were kept.
+    fn update_stats(&self, stats: &mut LiveCheckStatistics, template_name: Option<&str>) {
         stats.inc_entity_count("attribute");
         stats.maybe_add_live_check_result(self.live_check_result.as_ref());
-        let mut seen_attribute_name = self.name.clone();
-        if let Some(result) = &mut self.live_check_result {
-            for advice in &mut result.all_advice {
-                // If the advice is a template, adjust the name
-                if advice.id.parse::<FindingId>() == Ok(FindingId::TemplateAttribute) {
-                    if let Some(template_name) = advice
-                        .context
-                        .as_ref()
-                        .and_then(|c| c["template_name"].as_str())
-                    {
-                        seen_attribute_name = template_name.to_owned();
-                    }
-                }
-            }
-        }
-        stats.add_attribute_name_to_coverage(seen_attribute_name);
+        stats.add_attribute_name_to_coverage(template_name.unwrap_or(&self.name).to_owned());
     }
 }
 
@@ -241,7 +228,11 @@ impl LiveCheckRunner for SampleAttribute {
             );
         }
         self.live_check_result = Some(result);
-        self.update_stats(stats);
+        let template_name = semconv_attribute
+            .as_ref()
+            .filter(|attribute| matches!(attribute.r#type(), AttributeType::Template(_)))
+            .map(|attribute| attribute.name());
+        self.update_stats(stats, template_name);
         Ok(())
     }
 }
-- 
2.43.0


From e6eab1a1cf4ef7cf297851b9163c7e384b82a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 06/46] fix: let resource attributes that instantiate a
 template satisfy an entity's template attribute

---
 crates/weaver_live_check/src/advice/type_advisor.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index a833deb..c485a79 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -116,10 +116,17 @@ pub(crate) fn check_entity_resource_attributes(
     let mut advice_list = Vec::new();
 
     let check_attr = |key: &str,
+                      attribute_type: &AttributeType,
                       requirement_level: &RequirementLevel,
                       entity_type: &str,
                       advice_list: &mut Vec<PolicyFinding>| {
-        if attribute_set.contains(key) {
+        // A template attribute is present when the resource instantiates it.
+        let is_present = if matches!(attribute_type, AttributeType::Template(_)) {
+            attribute_set.iter().any(|name| name.starts_with(key))
+        } else {
+            attribute_set.contains(key)
+        };
+        if is_present {
             return;
         }
         let (finding_id, advice_level, message) = match requirement_level {
@@ -165,6 +172,7 @@ pub(crate) fn check_entity_resource_attributes(
             for attr in &group.attributes {
                 check_attr(
                     &attr.name,
+                    &attr.r#type,
                     &attr.requirement_level,
                     entity_type,
                     &mut advice_list,
@@ -176,6 +184,7 @@ pub(crate) fn check_entity_resource_attributes(
             for attr in entity.identity.iter().chain(entity.description.iter()) {
                 check_attr(
                     &attr.base.key,
+                    &attr.base.r#type,
                     &attr.requirement_level,
                     &entity_type,
                     &mut advice_list,
-- 
2.43.0


From 8e63016079fff0272f650807c346963c072a520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 07/46] fix: v1 registry diff reports v2 refinements as signals

A v2 refinement repeats the name of the signal it refines, so the diff of two
registries written in v2 syntax listed refinements as added or removed signals,
and attributed the deprecation of a refinement to the signal itself.
---
 crates/weaver_resolved_schema/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index a72318f..f1a5f8f 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -289,6 +289,8 @@ impl ResolvedTelemetrySchema {
             .groups
             .iter()
             .filter(|group| group.r#type == group_type)
+            // A v2 refinement repeats the name of the signal it refines.
+            .filter(|group| !group.is_v2_refinement())
             .filter_map(|g| g.signal_name().map(|name| (name, g)))
             .collect()
     }
-- 
2.43.0


From 4f869bbb8905f7be334d0462246fc6db42742018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:34 +0000
Subject: [PATCH 08/46] fix: replace non-ASCII letters when escaping Prometheus
 metric names

---
 crates/weaver_forge/src/extensions/prom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/extensions/prom.rs b/crates/weaver_forge/src/extensions/prom.rs
index 18edcc1..8841472 100644
--- a/crates/weaver_forge/src/extensions/prom.rs
+++ b/crates/weaver_forge/src/extensions/prom.rs
@@ -226,7 +226,7 @@ pub(crate) fn sanitize_name<'a>(s: &Cow<'a, str>) -> Cow<'a, str> {
             true
         } else {
             // keep checking
-            !c.is_alphanumeric() && *c != '_' && *c != ':'
+            !c.is_ascii_alphanumeric() && *c != '_' && *c != ':'
         }
     }) {
         // up to `replace_idx` have been validated, convert the rest
-- 
2.43.0


From b2d4a7f079a793065af5d89fa7a62796ad7d11e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:27 +0000
Subject: [PATCH 09/46] fix: number the items of nested lists in comments
 independently

---
 crates/weaver_forge/src/formats/markdown.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/formats/markdown.rs b/crates/weaver_forge/src/formats/markdown.rs
index adf4301..8c34e4f 100644
--- a/crates/weaver_forge/src/formats/markdown.rs
+++ b/crates/weaver_forge/src/formats/markdown.rs
@@ -364,6 +364,8 @@ impl MarkdownRenderer {
             }
             Node::List(list) => {
                 ctx.list_level += 1;
+                // Each list has its own numbering: keep the one of the enclosing list.
+                let outer_item_number = std::mem::take(&mut ctx.list_item_number);
                 let indent = if !options.indent_first_level_list_items && ctx.list_level == 1 {
                     indent.to_owned()
                 } else if options.use_go_style_list_indent && list.ordered {
@@ -394,7 +396,7 @@ impl MarkdownRenderer {
                     ctx.add_leftover_newlines(1);
                 }
                 ctx.list_level -= 1;
-                ctx.list_item_number = 0;
+                ctx.list_item_number = outer_item_number;
                 ctx.reset_line_prefix();
                 ctx.add_leftover_newlines(1);
             }
-- 
2.43.0


From 6d7add8c5ecd510b9d14ab62bce02eabbbde8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:25 +0000
Subject: [PATCH 10/46] fix: comment prefix longer than the line length no
 longer underflows

---
 crates/weaver_forge/src/extensions/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/extensions/code.rs b/crates/weaver_forge/src/extensions/code.rs
index f7fff69..d5d9806 100644
--- a/crates/weaver_forge/src/extensions/code.rs
+++ b/crates/weaver_forge/src/extensions/code.rs
@@ -157,7 +157,7 @@ pub(crate) fn comment(
 
             // TODO - reduce line limit by tabs.
             let actual_length_limit =
-                line_length_limit.map(|limit| limit - (indent.len() + prefix.len()));
+                line_length_limit.map(|limit| limit.saturating_sub(indent.len() + prefix.len()));
             comment = match &comment_format.format {
                 RenderFormat::Markdown(..) => markdown_snippet_renderer
                     .render(&comment, &comment_format_name, actual_length_limit)
-- 
2.43.0


From 51019084e2391969dc619d019b04b863477f957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:07 +0000
Subject: [PATCH 11/46] fix: keep the parent's metric attribute renames when
 extending schema versions

---
 crates/weaver_version/src/lib.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_version/src/lib.rs b/crates/weaver_version/src/lib.rs
index 326367d..28c02f6 100644
--- a/crates/weaver_version/src/lib.rs
+++ b/crates/weaver_version/src/lib.rs
@@ -359,7 +359,24 @@ impl VersionSpec {
         // Process metrics
         if let Some(metrics) = parent_spec.metrics {
             let mut metrics_change = MetricsChange::default();
-            for change in metrics.changes {
+            let mut metrics_attribute_changes: Vec<MetricsChange> = Vec::new();
+            for mut change in metrics.changes {
+                // Keep the attribute renamings not already present in the local changes
+                let local_changes = &mut self
+                    .metrics
+                    .get_or_insert_with(MetricsChanges::default)
+                    .changes;
+                change.rename_attributes.attribute_map.retain(|old, _| {
+                    !local_changes
+                        .iter()
+                        .any(|c| c.rename_attributes.attribute_map.contains_key(old))
+                });
+                if !change.rename_attributes.attribute_map.is_empty() {
+                    metrics_attribute_changes.push(MetricsChange {
+                        rename_attributes: change.rename_attributes,
+                        ..Default::default()
+                    });
+                }
                 'next_parent_renaming: for (old, new) in change.rename_metrics {
                     for local_change in self
                         .metrics
@@ -395,6 +412,12 @@ impl VersionSpec {
                         .extend(metrics_change.rename_metrics);
                 }
             }
+            if !metrics_attribute_changes.is_empty() {
+                self.metrics
+                    .get_or_insert_with(MetricsChanges::default)
+                    .changes
+                    .extend(metrics_attribute_changes);
+            }
         }
 
         // Process logs
-- 
2.43.0


From 318b62981c1fec6dde64808100506f13eed21aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 12/46] fix: do not unpack archive entries outside the target
 directory

---
 crates/weaver_common/src/vdir.rs | 42 ++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 3f1961d..f576002 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -80,7 +80,7 @@ use std::fmt::Display;
 use std::fs::{create_dir_all, File};
 use std::io;
 use std::num::NonZeroU32;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Mutex};
@@ -884,6 +884,12 @@ impl VirtualDirectory {
             })?;
 
             if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, target_path) {
+                Self::reject_symlinked_path(
+                    &valid_entry_path,
+                    target_path,
+                    entry.header().entry_type().is_dir(),
+                    archive_filename,
+                )?;
                 Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
                 // Unpack returns an Unpacked type containing the file descriptor to the
                 // unpacked file. The file descriptor is ignored as we don't have any use for it.
@@ -997,7 +1003,39 @@ impl VirtualDirectory {
                 }
             }
         }
-        Some(target_path.join(components.collect::<PathBuf>()))
+        // Skip entries that could designate something outside the target directory
+        // (e.g. `top/../../file`).
+        let path = components.collect::<PathBuf>();
+        if !path.components().all(|c| matches!(c, Component::Normal(_))) {
+            return None;
+        }
+        Some(target_path.join(path))
+    }
+
+    /// Returns an error if one of the directories leading to the given entry has been
+    /// unpacked as a symbolic link, as writing through this link could reach a location
+    /// outside the target directory.
+    fn reject_symlinked_path(
+        entry_path: &Path,
+        target_path: &Path,
+        entry_is_dir: bool,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
+        entry_path
+            .ancestors()
+            .take_while(|path| *path != target_path)
+            .skip(usize::from(!entry_is_dir))
+            .find(|path| path.is_symlink())
+            .map_or(Ok(()), |path| {
+                Err(InvalidRegistryArchive {
+                    archive: archive_filename.to_owned(),
+                    error: format!(
+                        "The entry `{}` would be unpacked through the symbolic link `{}`",
+                        entry_path.display(),
+                        path.display()
+                    ),
+                })
+            })
     }
 
     /// Creates parent directories for the given path.
-- 
2.43.0


From ab2f33b96b808911c9f0e667f31bf16ef8a91808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 13/46] fix: match every component of an archive sub-folder

---
 crates/weaver_common/src/vdir.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index f576002..7c5f81c 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -991,15 +991,14 @@ impl VirtualDirectory {
         _ = components.next();
 
         // If a sub-folder is specified, skip entries not in the sub-folder.
+        // If the entry is in the sub-folder, the sub-folder components are skipped.
         if let Some(sub_folder) = sub_folder {
-            if !sub_folder.trim().is_empty() {
-                // Skip any entry that is not in the sub-folder.
-                // If the entry is in the sub-folder, the sub-folder component is skipped.
-                let component = components.next();
-                if let Some(component) = component {
-                    if component.as_os_str() != sub_folder.as_str() {
-                        return None; // Skip entries not in the sub-folder
-                    }
+            for expected in Path::new(sub_folder.trim()).components() {
+                if matches!(expected, Component::RootDir | Component::CurDir) {
+                    continue;
+                }
+                if components.next() != Some(expected) {
+                    return None; // Skip entries not in the sub-folder
                 }
             }
         }
-- 
2.43.0


From d9fceb727fcc62a937535d7398d24eb320f417fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 14/46] fix: locate the resolved registry of a package next to
 its manifest in archives and Git repositories

---
 crates/weaver_semconv/src/registry_repo.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_semconv/src/registry_repo.rs b/crates/weaver_semconv/src/registry_repo.rs
index e76ebf3..daa2112 100644
--- a/crates/weaver_semconv/src/registry_repo.rs
+++ b/crates/weaver_semconv/src/registry_repo.rs
@@ -189,9 +189,25 @@ impl RegistryRepo {
                     .manifest_path
                     .clone()
                     .is_some_and(|mp| mp == self.registry.path());
-                Some(self.registry.vdir_path().map_sub_folder(|path| {
+                let vdir_path = self.registry.vdir_path();
+                if !matches!(
+                    vdir_path,
+                    VirtualDirectoryPath::LocalFolder { .. }
+                        | VirtualDirectoryPath::RemoteFile { .. }
+                ) {
+                    // Archives and Git repositories have been fetched with the manifest,
+                    // the resolved registry is next to it.
+                    let directory = self.manifest_path.as_ref()?.parent()?;
+                    return Some(VirtualDirectoryPath::LocalFolder {
+                        path: directory.join(registry_uri).display().to_string(),
+                    });
+                }
+                Some(vdir_path.map_sub_folder(|path| {
                     if vdir_was_manifest_file {
                         match Path::new(&path).parent() {
+                            Some(parent) if parent.as_os_str().is_empty() => {
+                                registry_uri.to_owned()
+                            }
                             Some(parent) => format!("{}/{registry_uri}", parent.display()),
                             None => "".to_owned(),
                         }
-- 
2.43.0


From 4c15be7179435b97713ba95a10e23f92f62174ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 15/46] fix: report incomplete metrics when converting a v1
 schema to v2 instead of panicking

---
 crates/weaver_resolved_schema/src/error.rs  | 12 +++++++++++-
 crates/weaver_resolved_schema/src/v2/mod.rs | 17 +++++++----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/error.rs b/crates/weaver_resolved_schema/src/error.rs
index aec2894..342eaba 100644
--- a/crates/weaver_resolved_schema/src/error.rs
+++ b/crates/weaver_resolved_schema/src/error.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 use crate::attribute::AttributeRef;
 use crate::error::Error::{
     AttributeNotFound, CompoundError, EntityAssociationNotFound, EventNameNotFound,
-    InvalidSchemaUrl, RefinementBaseNotFound,
+    InvalidSchemaUrl, MetricFieldNotFound, RefinementBaseNotFound,
 };
 
 /// Errors emitted by this crate.
@@ -29,6 +29,15 @@ pub enum Error {
         group_id: String,
     },
 
+    /// A mandatory field does not exist on a metric group in V1 schema.
+    #[error("Metric field `{field}` not found on group: {group_id}.  This is not supported in V2 schema!")]
+    MetricFieldNotFound {
+        /// Group id.
+        group_id: String,
+        /// The missing field.
+        field: String,
+    },
+
     /// A refinement group does not reference the base group it extends.
     #[error("Refinement group {group_id} does not reference a base group to extend. This is not supported in V2 schema!")]
     RefinementBaseNotFound {
@@ -82,6 +91,7 @@ impl Error {
                     CompoundError(errors) => errors,
                     e @ AttributeNotFound { .. } => vec![e],
                     e @ EventNameNotFound { .. } => vec![e],
+                    e @ MetricFieldNotFound { .. } => vec![e],
                     e @ RefinementBaseNotFound { .. } => vec![e],
                     e @ EntityAssociationNotFound { .. } => vec![e],
                     e @ InvalidSchemaUrl { .. } => vec![e],
diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index cb3e391..c7be0d5 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -662,21 +662,18 @@ pub fn convert_v1_to_v2(
                         log::info!("Logic failure - unable to convert attribute {attr:?}");
                     }
                 }
-                // TODO - deal with unwrap errors.
+                let missing = |field: &str| crate::error::Error::MetricFieldNotFound {
+                    group_id: g.id.clone(),
+                    field: field.to_owned(),
+                };
                 let metric = Metric {
                     name: g
                         .metric_name
                         .clone()
-                        .expect("metric_name must exist on metrics prior to translation to v2")
+                        .ok_or_else(|| missing("metric_name"))?
                         .into(),
-                    instrument: g
-                        .instrument
-                        .clone()
-                        .expect("instrument must exist on metrics prior to translation to v2"),
-                    unit: g
-                        .unit
-                        .clone()
-                        .expect("unit must exist on metrics prior to translation to v2"),
+                    instrument: g.instrument.clone().ok_or_else(|| missing("instrument"))?,
+                    unit: g.unit.clone().ok_or_else(|| missing("unit"))?,
                     attributes: metric_attributes,
                     entity_associations: convert_entity_associations(
                         &g.entity_associations,
-- 
2.43.0


From 99e27b44e3525721dcbf696c4582232876283359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 16/46] fix: print the non-policy diagnostics in the
 gh_workflow_command format

---
 defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2 b/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
index 81d6f1a..43f735e 100644
--- a/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
+++ b/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
@@ -11,7 +11,7 @@
 
 {%- if other_diagnostics %}
 ::group::Diagnostic report
-{% for item in policy_violations %}
+{% for item in other_diagnostics %}
 {{ item.diagnostic.ansi_message }}
 {% endfor %}
 ::endgroup::
-- 
2.43.0


From 2d4b84c675d5b28bbb34cb7017054a39be969703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 17/46] fix: report several policy file errors one by one
 instead of panicking

---
 src/weaver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/weaver.rs b/src/weaver.rs
index 8ac8402..d61a1b1 100644
--- a/src/weaver.rs
+++ b/src/weaver.rs
@@ -570,7 +570,11 @@ pub enum Error {
 // TODO - transparently convert to diagnostic messages.
 impl From<Error> for DiagnosticMessages {
     fn from(value: Error) -> Self {
-        DiagnosticMessages::new(vec![DiagnosticMessage::new(value)])
+        match value {
+            // Several policy errors are reported one by one.
+            Error::Checker(e) => e.into(),
+            value => DiagnosticMessages::new(vec![DiagnosticMessage::new(value)]),
+        }
     }
 }
 
-- 
2.43.0


From fddbd1b40a07a858c401e40e9854a064de4ea8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:31 +0000
Subject: [PATCH 18/46] fix: process definition files in path order so that
 resolution does not depend on thread scheduling

---
 crates/weaver_resolver/src/loader.rs | 29 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index e8a3a72..0f02de3 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -1,8 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 
 use itertools::Itertools;
+use rayon::iter::ParallelBridge;
 use rayon::iter::ParallelIterator;
-use rayon::iter::{IntoParallelIterator, ParallelBridge};
 use std::fmt::Display;
 use std::path::MAIN_SEPARATOR;
 use weaver_common::http_auth::HttpAuthResolver;
@@ -447,20 +447,20 @@ fn load_definition_repository(
     // Loads the semantic convention specifications from the git repo.
     // All yaml files are recursively loaded and parsed in parallel from
     // the given path.
-    let result = walkdir::WalkDir::new(local_path.clone())
+    let mut result = walkdir::WalkDir::new(local_path.clone())
         .follow_links(follow_symlinks)
         .into_iter()
         .filter_entry(|e| !is_hidden(e))
         .par_bridge()
-        .flat_map(|entry| {
+        .filter_map(|entry| {
             match entry {
                 Ok(entry) => {
                     if !is_semantic_convention_file(&entry) {
-                        return vec![].into_par_iter();
+                        return None;
                     }
 
                     // TODO - less confusing way to load semconv specs.
-                    vec![SemConvRegistry::semconv_spec_from_file(
+                    let spec = SemConvRegistry::semconv_spec_from_file(
                         registry_repo.schema_url().clone(),
                         entry.path(),
                         |path| {
@@ -478,16 +478,21 @@ fn load_definition_repository(
                                 format!("{registry_path_repr}/{relative_path}")
                             }
                         },
-                    )]
-                    .into_par_iter()
+                    );
+                    Some((entry.into_path(), spec))
                 }
-                Err(e) => vec![WResult::FatalErr(weaver_semconv::Error::SemConvSpecError {
-                    error: e.to_string(),
-                })]
-                .into_par_iter(),
+                Err(e) => Some((
+                    e.path().map(|p| p.to_path_buf()).unwrap_or_default(),
+                    WResult::FatalErr(weaver_semconv::Error::SemConvSpecError {
+                        error: e.to_string(),
+                    }),
+                )),
             }
         })
         .collect::<Vec<_>>();
+    // The files are visited in an unspecified order and parsed in parallel: process
+    // them in the order of their paths to get the same outcome for every run.
+    result.sort_by(|(l, _), (r, _)| l.cmp(r));
 
     let mut non_fatal_errors = vec![];
     let mut specs = vec![];
@@ -496,7 +501,7 @@ fn load_definition_repository(
     // The first fatal error will stop the processing and return the error.
     // Otherwise, all non-fatal errors will be collected and returned along
     // with the result.
-    for r in result {
+    for (_, r) in result {
         match r {
             WResult::Ok(t) => specs.push(t),
             WResult::OkWithNFEs(t, nfes) => {
-- 
2.43.0


From c38f8cda364fc29aa28f6c630160a2153a33dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:31 +0000
Subject: [PATCH 19/46] fix: report duplicates in a stable order

---
 crates/weaver_resolver/src/registry.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index 0fe5069..7194cea 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -13,7 +13,6 @@ use itertools::Itertools;
 use serde::Deserialize;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fmt::Display;
-use std::hash::Hash;
 use weaver_common::result::WResult;
 use weaver_resolved_schema::attribute::{AttributeRef, UnresolvedAttribute};
 use weaver_resolved_schema::lineage::{AttributeLineage, GroupLineage};
@@ -282,15 +281,16 @@ fn check_uniqueness<K, KF, EF>(
     key_fn: KF,
     error_fn: EF,
 ) where
-    K: Eq + Display + Hash,
+    K: Display,
     KF: Fn(&Group) -> Option<K>,
     EF: Fn(String, Vec<Provenance>) -> Error,
 {
-    let mut keys: HashMap<K, Vec<Provenance>> = HashMap::new();
+    // A `BTreeMap` keeps the reports in a stable order.
+    let mut keys: BTreeMap<String, Vec<Provenance>> = BTreeMap::new();
 
     for group in registry.groups.iter() {
         if let Some(key) = key_fn(group) {
-            let provenances = keys.entry(key).or_default();
+            let provenances = keys.entry(key.to_string()).or_default();
             if let Some(p) = group.provenance() {
                 provenances.push(p);
             }
@@ -300,9 +300,7 @@ fn check_uniqueness<K, KF, EF>(
     for (key, provenances) in keys {
         if provenances.len() > 1 {
             // Deduplicate the provenances.
-            let provenances: HashSet<Provenance> = provenances.into_iter().unique().collect();
-
-            errors.push(error_fn(key.to_string(), provenances.into_iter().collect()));
+            errors.push(error_fn(key, provenances.into_iter().unique().collect()));
         }
     }
 }
@@ -331,7 +329,7 @@ pub fn check_root_attribute_id_duplicates(
     errors: &mut Vec<Error>,
 ) {
     // Map to track groups by their root attribute ID.
-    let mut groups_by_root_attr_id = HashMap::new();
+    let mut groups_by_root_attr_id = BTreeMap::new();
     // Iterate over all groups in the registry that are of type `AttributeGroup`.
     registry
         .groups
-- 
2.43.0


From f4e1ce46d6ec766942b7575e6f4889490560ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 20/46] fix: weaver registry generate -c no longer collides
 with the global --config option

---
 crates/weaver_forge/README.md | 2 +-
 docs/usage.md                 | 2 +-
 docs/weaver-config.md         | 2 +-
 src/registry/generate.rs      | 3 ++-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/weaver_forge/README.md b/crates/weaver_forge/README.md
index 1697ba1..916146a 100644
--- a/crates/weaver_forge/README.md
+++ b/crates/weaver_forge/README.md
@@ -116,7 +116,7 @@ mechanism, loading configuration files in this order:
 
 Each subsequent configuration file overrides the previous ones, up to the
 `weaver.yaml` in the home directory (if it exists). To define your own
-configuration file list, use the `--config` CLI parameter.
+configuration file list, use the `-c` CLI parameter of `weaver registry generate`.
 
 A common use of this configuration hierarchy is to share configuration
 segments across multiple targets.
diff --git a/docs/usage.md b/docs/usage.md
index 2280ec3..a2133d3 100644
--- a/docs/usage.md
+++ b/docs/usage.md
@@ -142,7 +142,7 @@ The process exits with a code of 0 if the generation is successful.
 ###### **Options:**
 
 * `-t`, `--templates <TEMPLATES>` — Path to the directory where the templates are located. Default is the `templates` directory. [default: templates]
-* `-c`, `--config <CONFIG>` — List of `weaver.yaml` configuration files to use. When there is a conflict, the last one will override the previous ones for the keys that are defined in both
+* `-c <CONFIG>` — List of `weaver.yaml` configuration files to use. When there is a conflict, the last one will override the previous ones for the keys that are defined in both
 * `-D`, `--param <PARAM>` — Parameters key=value, defined in the command line, to pass to the templates. The value must be a valid YAML value
 * `--params <PARAMS>` — Parameters, defined in a YAML file, to pass to the templates
 * `-r`, `--registry <REGISTRY>` — Local folder, Git repo URL, or Git archive URL of the semantic convention registry. For Git URLs, a reference can be specified using the `@refspec` syntax and a sub-folder can be specified using the `[sub-folder]` syntax after the URL. [default: `https://github.com/open-telemetry/semantic-conventions.git[model]`]
diff --git a/docs/weaver-config.md b/docs/weaver-config.md
index 451c563..e9a5db5 100644
--- a/docs/weaver-config.md
+++ b/docs/weaver-config.md
@@ -252,7 +252,7 @@ By default, the `weaver.yaml` files are loaded in the following order:
 The last configuration file loaded will override the previous ones.
 
 For the most complex cases, it is possible to define explicitly the list configuration
-files to load using the `--config` CLI n-ary parameter.
+files to load using the `-c` CLI n-ary parameter of `weaver registry generate`.
 
 ## Parameters
 
diff --git a/src/registry/generate.rs b/src/registry/generate.rs
index f8ee0a8..fd9ab70 100644
--- a/src/registry/generate.rs
+++ b/src/registry/generate.rs
@@ -44,7 +44,8 @@ pub struct RegistryGenerateArgs {
 
     /// List of `weaver.yaml` configuration files to use. When there is a conflict, the last one
     /// will override the previous ones for the keys that are defined in both.
-    #[arg(short = 'c', long)]
+    // Note: the id and the long name `config` belong to the global `--config` option (`.weaver.toml`).
+    #[arg(id = "template_config", short = 'c', value_name = "CONFIG")]
     pub config: Option<Vec<PathBuf>>,
 
     /// Parameters key=value, defined in the command line, to pass to the templates.
-- 
2.43.0


From 6d76e6b7fb2b5cf4e018eb1b767255ba0277cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 21/46] fix: update-markdown passes all tag filters of a
 snippet to the template

---
 crates/weaver_semconv_gen/src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/weaver_semconv_gen/src/parser.rs b/crates/weaver_semconv_gen/src/parser.rs
index 58bbc53..31aecd6 100644
--- a/crates/weaver_semconv_gen/src/parser.rs
+++ b/crates/weaver_semconv_gen/src/parser.rs
@@ -46,11 +46,10 @@ impl GenerateMarkdownArgs {
     pub fn tag_filters(&self) -> Vec<&str> {
         self.args
             .iter()
-            .find_map(|arg| match arg {
+            .filter_map(|arg| match arg {
                 MarkdownGenParameters::Tag(value) => Some(value.as_str()),
                 _ => None,
             })
-            .into_iter()
             .collect()
     }
 }
-- 
2.43.0


From 478a3a405a601b84bc772f53c77fd4a04c71ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 22/46] fix: update-markdown reports an unterminated snippet
 instead of deleting the rest of the file

---
 crates/weaver_semconv_gen/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a7cd1d1..78af9a6 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -50,6 +50,13 @@ pub enum Error {
         /// The filter for which attributes to display.
         filter: String,
     },
+    /// Thrown when a snippet is not closed before the end of the file.
+    #[error("Snippet without end tag: [{header}]")]
+    UnterminatedSnippet {
+        /// The line starting the snippet.
+        header: String,
+    },
+
     /// Errors thrown when we are running a dry run and markdown doesn't match.
     #[error("Markdown is not equal:\n{}", diff_output(.original, .updated))]
     MarkdownIsNotEqual {
@@ -149,6 +156,7 @@ pub trait MarkdownSnippetGenerator {
     ) -> Result<String, Error> {
         let mut result = String::new();
         let mut snippet_context: Option<SnippetType> = None;
+        let mut snippet_header = "";
         for line in contents.lines() {
             match snippet_context {
                 Some(SnippetType::Semconv) => {
@@ -170,6 +178,7 @@ pub trait MarkdownSnippetGenerator {
                     result.push_str(line);
                     // TODO - don't do this on last line.
                     result.push('\n');
+                    snippet_header = line;
                     // Check to see if line matches snippet request.
                     // If so, generate the snippet and continue.
                     if parser::is_markdown_snippet_directive(line) {
@@ -187,6 +196,12 @@ pub trait MarkdownSnippetGenerator {
                 }
             }
         }
+        if snippet_context.is_some() {
+            // Everything after the header would be lost.
+            return Err(Error::UnterminatedSnippet {
+                header: snippet_header.to_owned(),
+            });
+        }
         Ok(result)
     }
 
-- 
2.43.0


From 81eb77dbb4c2d3c5c09320c9e7dd8104ccf51858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 23/46] fix: update-markdown fails when the markdown directory
 cannot be read

---
 src/registry/update_markdown.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/registry/update_markdown.rs b/src/registry/update_markdown.rs
index 12c7c0e..c465dd9 100644
--- a/src/registry/update_markdown.rs
+++ b/src/registry/update_markdown.rs
@@ -178,13 +178,16 @@ pub(crate) fn command(
     log_success("Registry resolved successfully");
     let operation = if dry_run { "Validating" } else { "Updating" };
     let mut has_error = false;
-    for entry in walkdir::WalkDir::new(&markdown_dir)
-        .into_iter()
-        .filter_map(|e| match e {
-            Ok(v) if is_markdown(&v) => Some(v),
-            _ => None,
-        })
-    {
+    for entry in walkdir::WalkDir::new(&markdown_dir) {
+        let entry = match entry {
+            Ok(v) if is_markdown(&v) => v,
+            Ok(_) => continue,
+            Err(error) => {
+                has_error = true;
+                log_error(error);
+                continue;
+            }
+        };
         log_info(format!("{}: ${}", operation, entry.path().display()));
         if let Err(error) = generator.update_markdown(
             &entry.path().display().to_string(),
-- 
2.43.0


From d6127c435b65dd0f12193a3451344e438fb2fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 24/46] fix: live-check keeps the resource of each OTLP batch
 instead of the last one seen

---
 src/registry/live_check.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 844a25d..9ece15c 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -393,11 +393,14 @@ pub(crate) fn command(
         // Track the most-recently-seen resource and attach it to signals that carry one.
         // This mirrors what the OTLP ingester does when building metrics/logs/spans from
         // OTLP protocol buffers, and allows JSON file inputs to associate a resource.
+        // OTLP samples already carry the resource of their own batch, if it has one.
         match &mut sample {
+            _ if matches!(&input_source, InputSource::Otlp) => {}
             Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
             Sample::Metric(m) => m.resource = current_resource.clone(),
             Sample::Log(l) => l.resource = current_resource.clone(),
             Sample::Span(s) => s.resource = current_resource.clone(),
+            Sample::Profile(p) => p.resource = current_resource.clone(),
             _ => {}
         }
         sample.run_live_check(&mut live_checker, &mut stats, None, &sample.clone())?;
-- 
2.43.0


From 66706741b1fa8fd61426c93e060cdfb59ac407be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 25/46] fix: report an admin port that cannot be bound instead
 of ending with an empty report

---
 src/registry/otlp/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 7962910..25444e5 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -337,6 +337,19 @@ pub fn listen_otlp_requests(
             error: e.to_string(),
         })?;
 
+    // Bind the admin port up front as well: without it `/stop` is unreachable, so
+    // the caller must know about a port that can't be bound.
+    let admin_listener = std::net::TcpListener::bind(("0.0.0.0", admin_port)).map_err(|e| {
+        Error::HttpAdminError {
+            error: format!("Failed to bind HTTP admin port {admin_port}: {e}"),
+        }
+    })?;
+    admin_listener
+        .set_nonblocking(true)
+        .map_err(|e| Error::HttpAdminError {
+            error: e.to_string(),
+        })?;
+
     let (tx, rx) = mpsc::channel(100);
     let stop_tx = tx.clone();
     // Create a watch channel for the last activity timestamp
@@ -377,7 +390,7 @@ pub fn listen_otlp_requests(
                 spawn_stop_signal_handlers(stop_tx.clone(), &mut tasks);
                 spawn_http_admin_handler(
                     stop_tx.clone(),
-                    admin_port,
+                    admin_listener,
                     coordinator_clone,
                     admin_shutdown_rx,
                     &mut tasks,
@@ -533,16 +546,12 @@ async fn stop_handler(State(state): State<AdminState>) -> impl IntoResponse {
 /// ignore as we don't need to abort these tasks.
 async fn spawn_http_admin_handler(
     stop_tx: mpsc::Sender<OtlpRequest>,
-    port: u16,
+    listener: std::net::TcpListener,
     coordinator: ShutdownCoordinator,
     admin_shutdown_rx: oneshot::Receiver<()>,
     tasks: &mut JoinSet<()>,
 ) {
-    let addr: SocketAddr = format!("0.0.0.0:{port}")
-        .parse()
-        .expect("Failed to parse HTTP admin port");
-
-    match TcpListener::bind(addr).await {
+    match TcpListener::from_std(listener) {
         Ok(listener) => {
             let state = AdminState {
                 stop_tx,
@@ -593,7 +602,7 @@ async fn spawn_http_admin_handler(
         Err(e) => {
             stop_tx
                 .send(OtlpRequest::Error(Error::HttpAdminError {
-                    error: format!("Failed to bind HTTP admin port {port}: {e}"),
+                    error: format!("Failed to start the HTTP admin server: {e}"),
                 }))
                 .await
                 .expect("Failed to send an OtlpRequest::Error");
-- 
2.43.0


From b6028333e7d933c2d6a542a3adab1307663bf019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 26/46] fix: /stop waits for the report from the first request
 with --output http

---
 src/registry/live_check.rs         |  4 +---
 src/registry/otlp/mod.rs           | 13 +++++++++++++
 src/registry/otlp/otlp_ingester.rs |  7 +++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 9ece15c..d28835c 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -330,11 +330,9 @@ pub(crate) fn command(
                 otlp_grpc_port: config.otlp.grpc_port,
                 admin_port: config.otlp.admin_port,
                 inactivity_timeout: config.otlp.inactivity_timeout,
+                expect_report: is_http_output,
             };
             let (iter, coordinator) = otlp.ingest_otlp()?;
-            if is_http_output {
-                coordinator.set_expect_report(true);
-            }
             shutdown_coordinator = Some(coordinator);
             iter
         }
diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 25444e5..be63ba5 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -320,6 +320,18 @@ pub fn listen_otlp_requests(
     grpc_port: u16,
     admin_port: u16,
     inactivity_timeout: Duration,
+) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
+    listen_otlp_requests_with_report(grpc_addr, grpc_port, admin_port, inactivity_timeout, false)
+}
+
+/// Same as [`listen_otlp_requests`]. With `expect_report`, `/stop` waits for the
+/// report from the very first request the admin server accepts.
+pub fn listen_otlp_requests_with_report(
+    grpc_addr: &str,
+    grpc_port: u16,
+    admin_port: u16,
+    inactivity_timeout: Duration,
+    expect_report: bool,
 ) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
     let addr: SocketAddr =
         format!("{grpc_addr}:{grpc_port}")
@@ -355,6 +367,7 @@ pub fn listen_otlp_requests(
     // Create a watch channel for the last activity timestamp
     let (activity_tx, activity_rx) = watch::channel(Instant::now());
     let (coordinator, admin_shutdown_rx) = ShutdownCoordinator::new();
+    coordinator.set_expect_report(expect_report);
     let logs_service = LogsServiceImpl {
         tx: tx.clone(),
         activity_tx: activity_tx.clone(),
diff --git a/src/registry/otlp/otlp_ingester.rs b/src/registry/otlp/otlp_ingester.rs
index 2bfe1b6..4678a14 100644
--- a/src/registry/otlp/otlp_ingester.rs
+++ b/src/registry/otlp/otlp_ingester.rs
@@ -18,7 +18,7 @@ use super::{
         otlp_profile_to_sample, sample_attribute_from_key_value, span_kind_from_otlp_kind,
         status_from_otlp_status,
     },
-    listen_otlp_requests, OtlpRequest, ShutdownCoordinator,
+    listen_otlp_requests_with_report, OtlpRequest, ShutdownCoordinator,
 };
 
 /// An ingester for OTLP data
@@ -31,6 +31,8 @@ pub struct OtlpIngester {
     pub admin_port: u16,
     /// The inactivity timeout
     pub inactivity_timeout: u64,
+    /// Whether the `/stop` endpoint waits for and returns the report
+    pub expect_report: bool,
 }
 
 /// Iterator for OTLP samples
@@ -282,11 +284,12 @@ impl OtlpIngester {
     pub fn ingest_otlp(
         &self,
     ) -> Result<(Box<dyn Iterator<Item = Sample>>, ShutdownCoordinator), Error> {
-        let (otlp_requests, coordinator) = listen_otlp_requests(
+        let (otlp_requests, coordinator) = listen_otlp_requests_with_report(
             self.otlp_grpc_address.as_str(),
             self.otlp_grpc_port,
             self.admin_port,
             Duration::from_secs(self.inactivity_timeout),
+            self.expect_report,
         )
         .map_err(|e| Error::IngestError {
             error: format!("Failed to listen to OTLP requests: {e}"),
-- 
2.43.0


From 7b1901fdf7a903098da43465de0c97bafff6bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:22 +0000
Subject: [PATCH 27/46] fix: load a registry whose directory is `.` or has a
 hidden name

---
 crates/weaver_resolver/src/loader.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index 0f02de3..02ef208 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -424,12 +424,15 @@ fn load_definition_repository(
     dependencies: Vec<LoadedSemconvRegistry>,
 ) -> WResult<LoadedSemconvRegistry, Error> {
     // Define helper functions for filtering files.
+    // The registry directory itself is never hidden: it can be `.`, or any path
+    // the user names.
     fn is_hidden(entry: &DirEntry) -> bool {
-        entry
-            .file_name()
-            .to_str()
-            .map(|s| s.starts_with('.'))
-            .unwrap_or(false)
+        entry.depth() > 0
+            && entry
+                .file_name()
+                .to_str()
+                .map(|s| s.starts_with('.'))
+                .unwrap_or(false)
     }
     fn is_semantic_convention_file(entry: &DirEntry) -> bool {
         let path = entry.path();
-- 
2.43.0


From 7959aadf67f4b2fc6b68531d2b79f25fe73a5ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:22 +0000
Subject: [PATCH 28/46] fix: warn about an attribute referenced twice by a v2
 signal, as for v1 groups

---
 crates/weaver_semconv/src/group.rs  | 2 +-
 crates/weaver_semconv/src/v2/mod.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_semconv/src/group.rs b/crates/weaver_semconv/src/group.rs
index 0fa62f6..20fe1c3 100644
--- a/crates/weaver_semconv/src/group.rs
+++ b/crates/weaver_semconv/src/group.rs
@@ -519,7 +519,7 @@ fn validate_entity_association(assoc: &EntityAssociation) -> Result<(), String>
     Ok(())
 }
 
-fn validate_duplicate_attribute_ref(
+pub(crate) fn validate_duplicate_attribute_ref(
     errors: &mut Vec<Error>,
     attributes: &[AttributeSpec],
     group_id: &str,
diff --git a/crates/weaver_semconv/src/v2/mod.rs b/crates/weaver_semconv/src/v2/mod.rs
index 5ca4734..4612655 100644
--- a/crates/weaver_semconv/src/v2/mod.rs
+++ b/crates/weaver_semconv/src/v2/mod.rs
@@ -11,7 +11,7 @@ use weaver_common::result::WResult;
 
 use crate::{
     deprecated::Deprecated,
-    group::GroupSpec,
+    group::{validate_duplicate_attribute_ref, GroupSpec},
     semconv::{Imports, SemConvSpecV1},
     stability::Stability,
     v2::{
@@ -209,6 +209,11 @@ impl SemConvSpecV2 {
             );
         }
 
+        // Same rule as for v1 groups.
+        for group in self.clone().into_v1_specification(provenance).groups() {
+            validate_duplicate_attribute_ref(&mut errors, &group.attributes, &group.id, provenance);
+        }
+
         let check_identity_overlap =
             |identity: &[AttributeRef], description: &[AttributeRef], group_id: &SignalId| {
                 let mut overlaps = vec![];
-- 
2.43.0


From 9287980048ebfe5df8effeeb0eb96f38b35c4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:40 +0000
Subject: [PATCH 29/46] fix: reject empty entity association combinators in v2
 definitions, as in v1 groups

---
 crates/weaver_semconv/src/group.rs  |  2 +-
 crates/weaver_semconv/src/v2/mod.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_semconv/src/group.rs b/crates/weaver_semconv/src/group.rs
index 20fe1c3..7bb3bca 100644
--- a/crates/weaver_semconv/src/group.rs
+++ b/crates/weaver_semconv/src/group.rs
@@ -492,7 +492,7 @@ impl GroupSpec {
 
 /// Recursively validates an entity association expression: combinators must be non-empty and
 /// entity references must be non-blank.
-fn validate_entity_association(assoc: &EntityAssociation) -> Result<(), String> {
+pub(crate) fn validate_entity_association(assoc: &EntityAssociation) -> Result<(), String> {
     match assoc {
         EntityAssociation::Ref(name) => {
             if name.trim().is_empty() {
diff --git a/crates/weaver_semconv/src/v2/mod.rs b/crates/weaver_semconv/src/v2/mod.rs
index 4612655..22ac46e 100644
--- a/crates/weaver_semconv/src/v2/mod.rs
+++ b/crates/weaver_semconv/src/v2/mod.rs
@@ -11,7 +11,7 @@ use weaver_common::result::WResult;
 
 use crate::{
     deprecated::Deprecated,
-    group::{validate_duplicate_attribute_ref, GroupSpec},
+    group::{validate_duplicate_attribute_ref, validate_entity_association, GroupSpec},
     semconv::{Imports, SemConvSpecV1},
     stability::Stability,
     v2::{
@@ -209,9 +209,18 @@ impl SemConvSpecV2 {
             );
         }
 
-        // Same rule as for v1 groups.
+        // Same rules as for v1 groups.
         for group in self.clone().into_v1_specification(provenance).groups() {
             validate_duplicate_attribute_ref(&mut errors, &group.attributes, &group.id, provenance);
+            for assoc in &group.entity_associations {
+                if let Err(error) = validate_entity_association(assoc) {
+                    errors.push(Error::InvalidGroup {
+                        path_or_url: provenance.to_owned(),
+                        group_id: group.id.clone(),
+                        error,
+                    });
+                }
+            }
         }
 
         let check_identity_overlap =
-- 
2.43.0


From ba5152f0778664f7568f73dc35eea952a927bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:45 +0000
Subject: [PATCH 30/46] fix: report examples of the wrong type in v2
 definitions, as in v1 groups

---
 crates/weaver_semconv/src/v2/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/weaver_semconv/src/v2/mod.rs b/crates/weaver_semconv/src/v2/mod.rs
index 22ac46e..73c52d6 100644
--- a/crates/weaver_semconv/src/v2/mod.rs
+++ b/crates/weaver_semconv/src/v2/mod.rs
@@ -10,6 +10,7 @@ use serde::{Deserialize, Serialize};
 use weaver_common::result::WResult;
 
 use crate::{
+    attribute::AttributeSpec,
     deprecated::Deprecated,
     group::{validate_duplicate_attribute_ref, validate_entity_association, GroupSpec},
     semconv::{Imports, SemConvSpecV1},
@@ -221,6 +222,21 @@ impl SemConvSpecV2 {
                     });
                 }
             }
+            for attribute in &group.attributes {
+                if let AttributeSpec::Id {
+                    id,
+                    r#type,
+                    examples: Some(examples),
+                    ..
+                } = attribute
+                {
+                    match examples.validate(r#type, &group.id, id, provenance) {
+                        WResult::Ok(_) => {}
+                        WResult::OkWithNFEs(_, errs) => errors.extend(errs),
+                        WResult::FatalErr(err) => return WResult::FatalErr(err),
+                    }
+                }
+            }
         }
 
         let check_identity_overlap =
-- 
2.43.0


From 5362f63cfec84796f4a58d3a835de176dc993fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 31/46] fix: resolve a ref to a dependency's attribute from its
 definition, not from an imported signal's variant

---
 crates/weaver_resolver/src/attribute.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index 153fb3e..31b0bae 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -131,6 +131,27 @@ impl AttributeCatalog {
         Ok(attr_with_source)
     }
 
+    /// Returns the attribute as the registry it originates in defines it.
+    ///
+    /// A dependency that imported a signal hands out the attribute as that signal
+    /// uses it, overrides included. A `ref` asks for the definition, so it is read
+    /// from the originating registry when that registry is part of the graph.
+    fn definition_of_record<C: crate::SchemaCacheLookup>(
+        mut attr_with_source: AttributeWithSource,
+        cache_lookup: &C,
+    ) -> Result<AttributeWithSource, Error> {
+        if let AttributeSource::Dependency { schema_url } = &attr_with_source.source {
+            if let Some(schema) = cache_lookup.lookup_schema(schema_url) {
+                if let Some(definition) =
+                    schema.lookup_attribute(&attr_with_source.attribute.name)?
+                {
+                    attr_with_source.attribute = definition.attribute;
+                }
+            }
+        }
+        Ok(attr_with_source)
+    }
+
     /// Returns an attribute ref from the catalog and also registers the attribute
     /// in `root_attributes` so its provenance is recorded.
     ///
@@ -331,6 +352,7 @@ impl AttributeCatalog {
                 if root_attr.is_none() {
                     if let Some(at) = dependencies.lookup_attribute(r#ref)? {
                         let at = Self::upgrade_attribute_with_source(at, cache_lookup)?;
+                        let at = Self::definition_of_record(at, cache_lookup)?;
                         _ = self.root_attributes.insert(r#ref.to_owned(), at);
                         root_attr = self.root_attributes.get(r#ref);
                     }
-- 
2.43.0


From 65eefafab0c46021087421265bedd5208607aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 32/46] fix: name the version in use as the source of an
 attribute when the graph holds several versions of its registry

---
 crates/weaver_resolved_schema/src/v2/mod.rs |  3 ++-
 crates/weaver_resolver/src/attribute.rs     |  4 +---
 crates/weaver_resolver/src/dependency.rs    |  5 +----
 crates/weaver_semconv/src/schema_url.rs     | 12 ++++++++++++
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index c7be0d5..7f80d5d 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -371,7 +371,8 @@ pub fn convert_v1_to_v2(
             // workaround for V2 -> V1 -> V2.
             if let Some(dep_name) = source_group_id.strip_prefix("v2_dependency.") {
                 let mut prov = provenance::Provenance::default();
-                if let Some(idx) = deps_list.iter().position(|u| u.name() == dep_name) {
+                let chosen = SchemaUrl::find_latest(&deps_list, dep_name);
+                if let Some(idx) = deps_list.iter().position(|u| Some(u) == chosen) {
                     prov.source = Some(provenance::DependencyRef(idx as u32));
                 }
                 return prov;
diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index 31b0bae..ded4555 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -634,9 +634,7 @@ impl AttributeLookup for V1Schema {
                 // referenced), so recover the full schema URL from the
                 // dependency list first and only fall back to the provenance
                 // of an imported group.
-                self.dependencies
-                    .iter()
-                    .find(|url| url.name() == schema_name)
+                SchemaUrl::find_latest(&self.dependencies, schema_name)
                     .cloned()
                     .or_else(|| {
                         self.registry.groups.iter().find_map(|g| {
diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index 1e73f22..cca6160 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -283,10 +283,7 @@ pub(crate) fn find_attribute_source(
             // `schema` (e.g. only an attribute was referenced), so recover
             // the full schema URL from the dependency list first and only
             // fall back to the provenance of an imported group.
-            schema
-                .dependencies
-                .iter()
-                .find(|url| url.name() == schema_name)
+            SchemaUrl::find_latest(&schema.dependencies, schema_name)
                 .cloned()
                 .or_else(|| {
                     schema.registry.groups.iter().find_map(|g| {
diff --git a/crates/weaver_semconv/src/schema_url.rs b/crates/weaver_semconv/src/schema_url.rs
index 7d3cb4c..017e71e 100644
--- a/crates/weaver_semconv/src/schema_url.rs
+++ b/crates/weaver_semconv/src/schema_url.rs
@@ -117,6 +117,18 @@ impl SchemaUrl {
         })
     }
 
+    /// Finds the registry called `name` among `urls`. When several versions of
+    /// it are listed, the latest one is returned.
+    #[must_use]
+    pub fn find_latest<'a>(
+        urls: impl IntoIterator<Item = &'a SchemaUrl>,
+        name: &str,
+    ) -> Option<&'a SchemaUrl> {
+        urls.into_iter()
+            .filter(|url| url.name() == name)
+            .max_by_key(|url| url.semver().ok())
+    }
+
     /// Returns a default unknown schema URL.
     #[must_use]
     pub fn new_unknown() -> Self {
-- 
2.43.0


From 9f10c089c345f3f8ceaf28c762bf7e82f0122848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 33/46] fix: keep what a signal says about an attribute when
 its definition is upgraded to the chosen version

---
 crates/weaver_resolver/src/attribute.rs | 63 +++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index ded4555..f39695e 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -2,7 +2,7 @@
 
 //! Attribute resolution.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use serde::Deserialize;
 
@@ -131,6 +131,63 @@ impl AttributeCatalog {
         Ok(attr_with_source)
     }
 
+    /// Upgrades an attribute in the form a signal uses it.
+    ///
+    /// The definition comes from the chosen version, and what the signal itself says
+    /// about the attribute stays: its requirement level, sampling relevance and role,
+    /// and every field in which it departs from the definition it was resolved against.
+    pub(crate) fn upgrade_signal_attribute<C: crate::SchemaCacheLookup>(
+        used: AttributeWithSource,
+        cache_lookup: &C,
+    ) -> Result<AttributeWithSource, Error> {
+        let mut upgraded = Self::upgrade_attribute_with_source(used.clone(), cache_lookup)?;
+        let AttributeSource::Dependency { schema_url } = &used.source else {
+            return Ok(upgraded);
+        };
+        if upgraded.source == used.source {
+            return Ok(used);
+        }
+        let used_attr = used.attribute;
+        let new_attr = &mut upgraded.attribute;
+        new_attr.requirement_level = used_attr.requirement_level;
+        new_attr.sampling_relevant = used_attr.sampling_relevant;
+        new_attr.role = used_attr.role;
+        new_attr.tag = used_attr.tag;
+        let replaced_schema = cache_lookup.lookup_schema(schema_url);
+        let replaced = match replaced_schema {
+            Some(schema) => schema.lookup_attribute(&used_attr.name)?,
+            None => None,
+        };
+        if let Some(AttributeWithSource {
+            attribute: replaced,
+            ..
+        }) = replaced
+        {
+            let no_annotations = BTreeMap::new();
+            if used_attr.brief != replaced.brief {
+                new_attr.brief = used_attr.brief;
+            }
+            if used_attr.note != replaced.note {
+                new_attr.note = used_attr.note;
+            }
+            if used_attr.examples != replaced.examples {
+                new_attr.examples = used_attr.examples;
+            }
+            if used_attr.stability != replaced.stability {
+                new_attr.stability = used_attr.stability;
+            }
+            if used_attr.deprecated != replaced.deprecated {
+                new_attr.deprecated = used_attr.deprecated;
+            }
+            if used_attr.annotations.as_ref().unwrap_or(&no_annotations)
+                != replaced.annotations.as_ref().unwrap_or(&no_annotations)
+            {
+                new_attr.annotations = used_attr.annotations;
+            }
+        }
+        Ok(upgraded)
+    }
+
     /// Returns the attribute as the registry it originates in defines it.
     ///
     /// A dependency that imported a signal hands out the attribute as that signal
@@ -164,13 +221,13 @@ impl AttributeCatalog {
         cache_lookup: &C,
     ) -> Result<AttributeRef, Error> {
         let attr_name = attr.name.clone();
-        let mut new_attr = AttributeWithSource {
+        let new_attr = AttributeWithSource {
             attribute: attr,
             source,
             is_definition: true,
         };
         // Make sure we pick the attribute from the *correct* version of a transitive dependency.
-        new_attr = Self::upgrade_attribute_with_source(new_attr, cache_lookup)?;
+        let new_attr = Self::upgrade_signal_attribute(new_attr, cache_lookup)?;
 
         // Return a ref to this group's own copy of the attribute. Different
         // groups may reference the same attribute with different
-- 
2.43.0


From 5918b1f17062473dc0c5ce1160123fb7063366c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 34/46] fix: refine the version of a dependency's signal that
 is in use, not the first dependency's copy

---
 crates/weaver_resolver/src/attribute.rs  | 61 ++++++++++++++++++++++++
 crates/weaver_resolver/src/dependency.rs | 54 ++++++++++++++++++++-
 crates/weaver_resolver/src/registry.rs   | 61 +++++++++++++++---------
 3 files changed, 152 insertions(+), 24 deletions(-)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index f39695e..28280bb 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -188,6 +188,67 @@ impl AttributeCatalog {
         Ok(upgraded)
     }
 
+    /// Upgrades an attribute inherited from a dependency's group, in place.
+    pub(crate) fn upgrade_inherited_attribute<C: crate::SchemaCacheLookup>(
+        inherited: &mut attribute::UnresolvedAttribute,
+        cache_lookup: &C,
+    ) -> Result<(), Error> {
+        let Some(schema_url) = inherited.origin.clone() else {
+            return Ok(());
+        };
+        let AttributeSpec::Id {
+            id,
+            r#type,
+            brief,
+            examples,
+            tag,
+            requirement_level,
+            sampling_relevant,
+            note,
+            stability,
+            deprecated,
+            annotations,
+            role,
+        } = &mut inherited.spec
+        else {
+            return Ok(());
+        };
+        let used = AttributeWithSource {
+            attribute: attribute::Attribute {
+                name: id.clone(),
+                r#type: r#type.clone(),
+                brief: brief.clone().unwrap_or_default(),
+                examples: examples.clone(),
+                tag: tag.clone(),
+                requirement_level: requirement_level.clone(),
+                sampling_relevant: *sampling_relevant,
+                note: note.clone(),
+                stability: stability.clone(),
+                deprecated: deprecated.clone(),
+                tags: None,
+                value: None,
+                prefix: false,
+                annotations: annotations.clone(),
+                role: role.clone(),
+            },
+            source: AttributeSource::Dependency { schema_url },
+            is_definition: false,
+        };
+        let upgraded = Self::upgrade_signal_attribute(used, cache_lookup)?;
+        let attribute = upgraded.attribute;
+        *r#type = attribute.r#type;
+        *brief = Some(attribute.brief);
+        *examples = attribute.examples;
+        *note = attribute.note;
+        *stability = attribute.stability;
+        *deprecated = attribute.deprecated;
+        *annotations = attribute.annotations;
+        if let AttributeSource::Dependency { schema_url } = upgraded.source {
+            inherited.origin = Some(schema_url);
+        }
+        Ok(())
+    }
+
     /// Returns the attribute as the registry it originates in defines it.
     ///
     /// A dependency that imported a signal hands out the attribute as that signal
diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index cca6160..6a2fac6 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -24,9 +24,11 @@ use weaver_semconv::schema_url::SchemaUrl;
 use weaver_semconv::signal_requirement_level::SignalRequirementLevel;
 use weaver_semconv::stability::Stability;
 
-use crate::attribute::AttributeSource;
+use crate::attribute::{AttributeCatalog, AttributeSource};
+use crate::conflict_strategy::{DependencyVersionConflictStrategy, UseLatestMajorVersion};
 use crate::dependency_resolution::is_excluded;
 use crate::imports::import_match_keys;
+use crate::Error;
 
 /// Where a group lookup landed: in the local registry or in a dependency.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -67,6 +69,8 @@ pub(crate) struct GroupSummary {
     pub annotations: Option<std::collections::BTreeMap<String, weaver_semconv::YamlValue>>,
     /// Where this summary was looked up from.
     pub source: GroupSource,
+    /// The registry that declared the group, when the summary comes from a dependency.
+    pub origin: Option<SchemaUrl>,
 }
 
 impl GroupSummary {
@@ -89,6 +93,7 @@ impl GroupSummary {
             attributes: vec![], // Will be set during the dependency or registry loops.
             annotations: group.annotations.clone(),
             source,
+            origin: None,
         }
     }
 }
@@ -222,6 +227,46 @@ pub(crate) fn resolve_entity(deps: &[ResolvedDependency], name: &str) -> EntityR
     }
 }
 
+/// Brings the summary of a dependency's group to the version of its registry chosen
+/// for the whole dependency graph, as importing the group does: the group itself, when
+/// the chosen registry defines it, and the attributes it uses.
+pub(crate) fn upgrade_group_summary<C: crate::SchemaCacheLookup>(
+    summary: GroupSummary,
+    id: &str,
+    cache_lookup: &C,
+) -> Result<GroupSummary, Error> {
+    let mut summary = chosen_group_summary(&summary, id, cache_lookup).unwrap_or(summary);
+    for attribute in summary.attributes.iter_mut() {
+        AttributeCatalog::upgrade_inherited_attribute(attribute, cache_lookup)?;
+    }
+    Ok(summary)
+}
+
+/// The summary of the same group in the chosen version of its registry, when that
+/// version is not the one `summary` comes from.
+fn chosen_group_summary<C: crate::SchemaCacheLookup>(
+    summary: &GroupSummary,
+    id: &str,
+    cache_lookup: &C,
+) -> Option<GroupSummary> {
+    let origin = summary.origin.as_ref()?;
+    let chosen_url = cache_lookup.chosen_version(origin.name())?;
+    if chosen_url == origin {
+        return None;
+    }
+    let winning_url = UseLatestMajorVersion
+        .resolve_conflict(origin, chosen_url)
+        .ok()?;
+    if winning_url != *chosen_url {
+        return None;
+    }
+    let chosen = match cache_lookup.lookup_schema(chosen_url)?.as_ref() {
+        crate::WeaverResolvedSchema::V1(schema) => schema.lookup_group_summary(id),
+        crate::WeaverResolvedSchema::V2(schema) => schema.lookup_group_summary(id),
+    };
+    chosen.filter(|chosen| chosen.r#type == summary.r#type)
+}
+
 /// Helper trait for abstracting over V1 and V2 schema.
 pub(crate) trait GroupRefinementLookup {
     /// Looks up a group summary on this repo.
@@ -263,6 +308,7 @@ impl GroupRefinementLookup for V1Schema {
                 .collect();
             let mut summary = GroupSummary::from_without_attributes(g, GroupSource::Dependency);
             summary.attributes = attributes;
+            summary.origin = g.provenance().map(|prov| prov.schema_url).or(my_schema_url);
             summary
         })
     }
@@ -381,6 +427,7 @@ fn signal_summary(
     common: &weaver_semconv::v2::CommonFields,
     requirement_level: Option<SignalRequirementLevel>,
     attributes: Vec<UnresolvedAttribute>,
+    origin: SchemaUrl,
 ) -> GroupSummary {
     GroupSummary {
         r#type,
@@ -397,6 +444,7 @@ fn signal_summary(
         attributes,
         annotations: Some(common.annotations.clone()),
         source: GroupSource::Dependency,
+        origin: Some(origin),
     }
 }
 
@@ -431,6 +479,7 @@ fn entity_group_summary(schema: &V2Schema, deps: &[SchemaUrl], e: &Entity) -> Gr
         &e.common,
         e.requirement_level.clone(),
         attributes,
+        v2_source_url(schema, deps, e.provenance.source),
     )
 }
 
@@ -468,6 +517,7 @@ impl GroupRefinementLookup for V2Schema {
                 &m.common,
                 m.requirement_level.clone(),
                 attributes,
+                v2_source_url(self, &deps, m.provenance.source),
             );
             summary.metric_name = Some(m.name.to_string());
             summary.instrument = Some(m.instrument.clone());
@@ -489,6 +539,7 @@ impl GroupRefinementLookup for V2Schema {
                 &e.common,
                 e.requirement_level.clone(),
                 attributes,
+                v2_source_url(self, &deps, e.provenance.source),
             ));
         }
         if let Some(s) = find(&self.registry.spans, id, "span.") {
@@ -513,6 +564,7 @@ impl GroupRefinementLookup for V2Schema {
                 &s.common,
                 s.requirement_level.clone(),
                 attributes,
+                v2_source_url(self, &deps, s.provenance.source),
             );
             summary.span_kind = Some(s.kind.clone());
             summary.span_name = Some(s.name.clone());
diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index 7194cea..52653ea 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -4,7 +4,9 @@
 
 use crate::attribute::AttributeCatalog;
 use crate::conflict_strategy::{DependencyVersionConflictStrategy, UseLatestMajorVersion};
-use crate::dependency::{resolve_entity, EntityResolution, ResolvedDependency};
+use crate::dependency::{
+    resolve_entity, upgrade_group_summary, EntityResolution, ResolvedDependency,
+};
 use crate::dependency_resolution::{is_excluded, is_group_excluded};
 use crate::imports::ImportableDependency;
 use crate::Error;
@@ -153,7 +155,7 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
         return WResult::FatalErr(e);
     }
 
-    if let Err(e) = resolve_extends_references(&mut ureg) {
+    if let Err(e) = resolve_extends_references(&mut ureg, cache_lookup) {
         return WResult::FatalErr(e);
     }
 
@@ -828,31 +830,37 @@ fn collect_included_group_attrs<'a>(
 /// Resolves a group's parent (`extends`) signal, applies the fields a V2
 /// refinement inherits from it, and returns the parent's attributes.
 /// `Ok(None)` — with a recoverable error recorded; `Err` is fatal.
-fn resolve_refinement_parent(
+fn resolve_refinement_parent<C: crate::SchemaCacheLookup>(
     group: &mut UnresolvedGroup,
     extends: &str,
     group_index: &HashMap<String, GroupSummary>,
     dependencies: &[ResolvedDependency],
+    cache_lookup: &C,
     errors: &mut Vec<Error>,
 ) -> Result<Option<Vec<UnresolvedAttribute>>, Error> {
-    let parent =
-        match lookup_group_with_dependencies(dependencies, group_index, extends, &group.group.id) {
-            Ok(Some(s)) => s,
-            // TODO - first check imports.
-            Ok(None) => {
-                errors.push(Error::UnresolvedExtendsRef {
-                    group_id: group.group.id.clone(),
-                    extends_ref: extends.to_owned(),
-                    provenance: group.provenance.clone().map(Box::new),
-                });
-                return Ok(None);
-            }
-            Err(e @ Error::ExcludedFromDependencyResolution { .. }) => {
-                errors.push(e);
-                return Ok(None);
-            }
-            Err(e) => return Err(e),
-        };
+    let parent = match lookup_group_with_dependencies(
+        dependencies,
+        group_index,
+        extends,
+        &group.group.id,
+        cache_lookup,
+    ) {
+        Ok(Some(s)) => s,
+        // TODO - first check imports.
+        Ok(None) => {
+            errors.push(Error::UnresolvedExtendsRef {
+                group_id: group.group.id.clone(),
+                extends_ref: extends.to_owned(),
+                provenance: group.provenance.clone().map(Box::new),
+            });
+            return Ok(None);
+        }
+        Err(e @ Error::ExcludedFromDependencyResolution { .. }) => {
+            errors.push(e);
+            return Ok(None);
+        }
+        Err(e) => return Err(e),
+    };
     if let Some(err) = excluded_parent_error(group, extends, &parent) {
         errors.push(err);
         return Ok(None);
@@ -918,7 +926,10 @@ fn inherit_v2_refinement_fields(
 /// be resolved in an iteration.
 ///
 /// Returns true if all the `extends` references have been resolved.
-fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error> {
+fn resolve_extends_references<C: crate::SchemaCacheLookup>(
+    ureg: &mut UnresolvedRegistry,
+    cache_lookup: &C,
+) -> Result<(), Error> {
     let mut fatal_errors: Vec<Error> = vec![];
     loop {
         let mut errors = vec![];
@@ -967,6 +978,7 @@ fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error
                     &parent_ref,
                     &group_index,
                     dependencies,
+                    cache_lookup,
                     &mut errors,
                 )? {
                     Some(parent_attrs) => {
@@ -982,6 +994,7 @@ fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error
                                         &group_index,
                                         &parent_ref,
                                         &unresolved_group.group.id,
+                                        cache_lookup,
                                     )
                                     .ok()
                                     .flatten()
@@ -1315,11 +1328,12 @@ fn resolve_inheritance_attr(
 // Rust's type system is not advanced enough to know about partial mutable
 // borrowing of a reference.
 /// Hides excluded dep matches from dependents; raises if all dep matches are excluded.
-fn lookup_group_with_dependencies(
+fn lookup_group_with_dependencies<C: crate::SchemaCacheLookup>(
     dependencies: &[ResolvedDependency],
     local_index: &HashMap<String, GroupSummary>,
     id: &str,
     used_in: &str,
+    cache_lookup: &C,
 ) -> Result<Option<GroupSummary>, Error> {
     if let Some(summary) = local_index.get(id) {
         return Ok(Some(summary.clone()));
@@ -1327,6 +1341,7 @@ fn lookup_group_with_dependencies(
     let mut excluded_match: Option<GroupSummary> = None;
     for d in dependencies.iter() {
         if let Some(summary) = d.lookup_group_summary(id) {
+            let summary = upgrade_group_summary(summary, id, cache_lookup)?;
             if summary.annotations.as_ref().is_some_and(is_excluded) {
                 _ = excluded_match.get_or_insert(summary);
             } else {
-- 
2.43.0


From 934b1609382645c993a4d6be982c2fc18596227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 35/46] fix: an entity reached in two compatible versions of
 its registry is one entity, not an ambiguity

---
 crates/weaver_resolver/src/dependency.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index 6a2fac6..f7ee573 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -216,7 +216,17 @@ pub(crate) fn resolve_entity(deps: &[ResolvedDependency], name: &str) -> EntityR
             // A private entity is no part of the surface a dependency offers.
             private = true;
         } else if !origins.contains(&location.origin) {
-            origins.push(location.origin);
+            // Compatible versions of one registry declare one entity.
+            let same = origins.iter_mut().find_map(|known| {
+                UseLatestMajorVersion
+                    .resolve_conflict(known, &location.origin)
+                    .ok()
+                    .map(|winning| (known, winning))
+            });
+            match same {
+                Some((known, winning)) => *known = winning,
+                None => origins.push(location.origin),
+            }
         }
     }
     match origins.len() {
-- 
2.43.0


From 0998d048d7c4901f55aa167f6dfefe419bbe55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 36/46] fix: an entity association names the version of the
 entity's registry that is in use

---
 crates/weaver_resolver/src/registry.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index 52653ea..be53658 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -170,7 +170,7 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
 
     // After the imports, because a signal can arrive from a dependency with
     // associations of its own, and because an import satisfies an association.
-    if let Err(e) = resolve_entity_associations(&mut ureg) {
+    if let Err(e) = resolve_entity_associations(&mut ureg, cache_lookup) {
         return WResult::FatalErr(e);
     }
 
@@ -514,7 +514,10 @@ fn resolve_dependency_imports<C: crate::SchemaCacheLookup>(
 /// that is private too. Otherwise the registry publishes a signal that names an
 /// entity no dependent can reach. This is the rule an attribute `ref` and an
 /// `extends` clause already follow, in [`excluded_parent_error`].
-fn resolve_entity_associations(ureg: &mut UnresolvedRegistry) -> Result<(), Error> {
+fn resolve_entity_associations<C: crate::SchemaCacheLookup>(
+    ureg: &mut UnresolvedRegistry,
+    cache_lookup: &C,
+) -> Result<(), Error> {
     // Most registries associate nothing, and then there is no name to look up.
     if ureg
         .groups
@@ -620,6 +623,19 @@ fn resolve_entity_associations(ureg: &mut UnresolvedRegistry) -> Result<(), Erro
             .or_default()
             .extend(group_origins);
     }
+    // An entity found in a version the graph moved on from is the chosen version's.
+    for origin in ureg
+        .registry
+        .entity_association_origins
+        .values_mut()
+        .flat_map(|origins| origins.values_mut())
+    {
+        if let Some(chosen_url) = cache_lookup.chosen_version(origin.name()) {
+            if let Ok(winning_url) = UseLatestMajorVersion.resolve_conflict(origin, chosen_url) {
+                *origin = winning_url;
+            }
+        }
+    }
     Ok(())
 }
 
-- 
2.43.0


From 2efa13433520812f213f72eaefa7d9192cee450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 37/46] fix: the dependencies of a resolved dependency take
 part in conflict and cycle detection

---
 crates/weaver_resolver/src/loader.rs | 60 +++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index 02ef208..0495d68 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -287,8 +287,21 @@ fn load_semconv_repository_recursive(
                 crate::WeaverResolvedSchema::V1(s) => LoadedSemconvRegistry::Resolved(s.clone()),
                 crate::WeaverResolvedSchema::V2(s) => LoadedSemconvRegistry::ResolvedV2(s.clone()),
             };
+            // Its dependencies are part of the graph too, although they aren't loaded again.
+            let res = match &loaded {
+                LoadedSemconvRegistry::Resolved(s) => {
+                    choose_versions(&s.dependencies, chosen_versions, dependency_chain)
+                }
+                LoadedSemconvRegistry::ResolvedV2(s) => {
+                    choose_versions(&s.dependencies, chosen_versions, dependency_chain)
+                }
+                LoadedSemconvRegistry::Unresolved { .. } => Ok(()),
+            };
             let _ = dependency_chain.pop();
-            return WResult::Ok(loaded);
+            return match res {
+                Ok(()) => WResult::Ok(loaded),
+                Err(e) => WResult::FatalErr(e),
+            };
         }
     }
 
@@ -301,20 +314,10 @@ fn load_semconv_repository_recursive(
             if let WResult::Ok(LoadedSemconvRegistry::ResolvedV2(ref schema))
             | WResult::OkWithNFEs(LoadedSemconvRegistry::ResolvedV2(ref schema), _) = res
             {
-                for dep in schema.dependencies.iter() {
-                    let dep_name = dep.name().to_owned();
-                    if let Some(prev_schema_url) = chosen_versions.get(&dep_name) {
-                        if prev_schema_url != dep {
-                            match UseLatestMajorVersion.resolve_conflict(prev_schema_url, dep) {
-                                Ok(chosen) => {
-                                    let _ = chosen_versions.insert(dep_name, chosen);
-                                }
-                                Err(e) => return WResult::FatalErr(e),
-                            }
-                        }
-                    } else {
-                        let _ = chosen_versions.insert(dep_name, dep.clone());
-                    }
+                if let Err(e) =
+                    choose_versions(&schema.dependencies, chosen_versions, dependency_chain)
+                {
+                    return WResult::FatalErr(e);
                 }
             }
             let _ = dependency_chain.pop();
@@ -387,6 +390,33 @@ fn load_semconv_repository_recursive(
     }
 }
 
+/// Registers the dependencies of an already resolved schema for conflict resolution.
+/// None of them can be a registry of the current path.
+fn choose_versions(
+    dependencies: &std::collections::BTreeSet<SchemaUrl>,
+    chosen_versions: &mut std::collections::HashMap<String, SchemaUrl>,
+    dependency_chain: &[String],
+) -> Result<(), Error> {
+    for dep in dependencies {
+        let dep_name = dep.name().to_owned();
+        if dependency_chain.contains(&dep_name) {
+            let chain = dependency_chain.join(" → ");
+            return Err(Error::CircularDependency {
+                chain: format!("{chain} → {dep_name}"),
+                registry_name: dep_name,
+            });
+        }
+        let chosen = match chosen_versions.get(&dep_name) {
+            Some(prev_schema_url) if prev_schema_url != dep => {
+                UseLatestMajorVersion.resolve_conflict(prev_schema_url, dep)?
+            }
+            _ => dep.clone(),
+        };
+        let _ = chosen_versions.insert(dep_name, chosen);
+    }
+    Ok(())
+}
+
 /// Loads a resolved repository.
 fn load_resolved_repository(
     path: &VirtualDirectoryPath,
-- 
2.43.0


From cd3de4b06779d5a75aeef35127abb7f799db377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:11 +0000
Subject: [PATCH 38/46] fix: attribute_sort accepts an opt_in requirement level
 with a text

---
 crates/weaver_forge/src/extensions/otel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/weaver_forge/src/extensions/otel.rs b/crates/weaver_forge/src/extensions/otel.rs
index d291dac..9f980c0 100644
--- a/crates/weaver_forge/src/extensions/otel.rs
+++ b/crates/weaver_forge/src/extensions/otel.rs
@@ -326,6 +326,8 @@ fn compare_requirement_level(
             .is_ok_and(|v| !v.is_undefined())
         {
             Ok(3)
+        } else if level.get_attr("opt_in").is_ok_and(|v| !v.is_undefined()) {
+            Ok(4)
         } else {
             match level.as_str() {
                 Some("required") => Ok(1),
-- 
2.43.0


From 6488f07dfa85db06824fbe8c378039cffe17ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:52 +0000
Subject: [PATCH 39/46] fix: read every member of a gzip file when unpacking a
 registry archive

---
 crates/weaver_common/src/vdir.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 7c5f81c..140cbf1 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -866,7 +866,8 @@ impl VirtualDirectory {
         target_path: &Path,
         sub_folder: Option<&String>,
     ) -> Result<(), Error> {
-        let tar_file = flate2::read::GzDecoder::new(archive_file);
+        // A gzip file can consist of several members.
+        let tar_file = flate2::read::MultiGzDecoder::new(archive_file);
         let mut archive = tar::Archive::new(tar_file);
 
         for entry in archive.entries().map_err(|e| InvalidRegistryArchive {
-- 
2.43.0


From f7eebfe90bb07ff73ba5c72df531aa28078e5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:07 +0000
Subject: [PATCH 40/46] fix: load advice data files that share a directory

Two data files in the same sub-directory both carry the key of that directory,
and the engine rejects a second document for a key it already holds. Merge the
documents before adding them.
---
 crates/weaver_checker/src/lib.rs | 66 +++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/crates/weaver_checker/src/lib.rs b/crates/weaver_checker/src/lib.rs
index bc20011..5a1a652 100644
--- a/crates/weaver_checker/src/lib.rs
+++ b/crates/weaver_checker/src/lib.rs
@@ -290,7 +290,10 @@ impl Engine {
         if glob_pattern.is_empty() {
             if md.is_file() {
                 let root = base.parent().unwrap_or_else(|| Path::new("."));
-                return self.add_data_file_from_dir(root, &base);
+                return match Self::load_data_file_from_dir(root, &base)? {
+                    Some(data) => self.add_data(&data),
+                    None => Ok(()),
+                };
             }
             glob_pattern = "**/*".to_owned();
         }
@@ -303,6 +306,9 @@ impl Engine {
             .compile_matcher();
 
         let mut errors = Vec::new();
+        // The files of one directory share the keys of the directories above them, and the
+        // engine does not merge nested documents. Merge them here and add them once.
+        let mut data = serde_json::Value::Object(serde_json::Map::new());
         for entry in walkdir::WalkDir::new(&base)
             .into_iter()
             .filter_entry(|e| !is_hidden(e))
@@ -326,21 +332,33 @@ impl Engine {
                         error: format!("Failed to get relative path: {e}"),
                     })?;
                 if glob.is_match(rel_path) {
-                    if let Err(err) = self.add_data_file_from_dir(&base, entry_path) {
-                        errors.push(err);
+                    match Self::load_data_file_from_dir(&base, entry_path) {
+                        Ok(Some(file_data)) => {
+                            if let Err(key) = merge_data(&mut data, file_data) {
+                                errors.push(Error::InvalidData {
+                                    error: format!(
+                                        "Data file {} conflicts with another file on the key `{key}`",
+                                        entry_path.display()
+                                    ),
+                                });
+                            }
+                        }
+                        Ok(None) => {}
+                        Err(err) => errors.push(err),
                     }
                 }
             }
         }
         handle_errors(errors)?;
-        Ok(())
+        self.add_data(&data)
     }
 
-    fn add_data_file_from_dir<P1: AsRef<Path>, P2: AsRef<Path>>(
-        &mut self,
+    /// Reads a data file and nests its content under the keys of its path relative to the
+    /// root directory. Returns `None` when the file is not a data file.
+    fn load_data_file_from_dir<P1: AsRef<Path>, P2: AsRef<Path>>(
         root_dir: P1,
         path: P2,
-    ) -> Result<(), Error> {
+    ) -> Result<Option<serde_json::Value>, Error> {
         let root = root_dir.as_ref();
         let file_path = path.as_ref();
 
@@ -376,7 +394,7 @@ impl Engine {
                     "Skipping file {} (unsupported extension)",
                     file_path.display()
                 );
-                return Ok(());
+                return Ok(None);
             }
         };
 
@@ -399,9 +417,9 @@ impl Engine {
             wrapped = serde_json::Value::Object(map);
         }
 
-        self.add_data(&wrapped)?;
-        Ok(())
+        Ok(Some(wrapped))
     }
+
     /// Adds a policy file to the policy engine.
     /// A policy file is a `rego` file that contains the policies to be evaluated.
     ///
@@ -596,6 +614,34 @@ impl Engine {
     }
 }
 
+/// Merges a data document into another one, key by key. Returns the key on which the two
+/// documents hold different values.
+fn merge_data(base: &mut serde_json::Value, other: serde_json::Value) -> Result<(), String> {
+    if let (serde_json::Value::Object(base), serde_json::Value::Object(other)) =
+        (&mut *base, &other)
+    {
+        for (key, value) in other {
+            if let Some(existing) = base.get_mut(key) {
+                merge_data(existing, value.clone()).map_err(|nested| {
+                    if nested.is_empty() {
+                        key.clone()
+                    } else {
+                        format!("{key}.{nested}")
+                    }
+                })?;
+            } else {
+                let _ = base.insert(key.clone(), value.clone());
+            }
+        }
+        return Ok(());
+    }
+    if *base == other {
+        Ok(())
+    } else {
+        Err(String::new())
+    }
+}
+
 fn split_glob(pattern: &str) -> (PathBuf, String) {
     let path = Path::new(pattern);
     let mut base = PathBuf::new();
-- 
2.43.0


From 518de9421ec1f0b83e524d64455b842dbe630145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:07 +0000
Subject: [PATCH 41/46] fix: do not read files that are not advice data

A file with another extension is ignored, but its content was read first, so a
binary file next to the data was an error.
---
 crates/weaver_checker/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/weaver_checker/src/lib.rs b/crates/weaver_checker/src/lib.rs
index 5a1a652..5a4a3bc 100644
--- a/crates/weaver_checker/src/lib.rs
+++ b/crates/weaver_checker/src/lib.rs
@@ -369,23 +369,25 @@ impl Engine {
             })?;
 
         let extension = file_path.extension().and_then(|s| s.to_str()).unwrap_or("");
-        let content = std::fs::read_to_string(file_path).map_err(|e| Error::AccessDenied {
-            path: file_path.to_string_lossy().to_string(),
-            error: e.to_string(),
-        })?;
+        let read = || {
+            std::fs::read_to_string(file_path).map_err(|e| Error::AccessDenied {
+                path: file_path.to_string_lossy().to_string(),
+                error: e.to_string(),
+            })
+        };
 
         // OPA Rego requires data documents to be structured values. We deserialize the
         // content here to validate the structure and pass it to the engine.
         let parsed_value: serde_json::Value = match extension {
             "json" => {
                 log::debug!("Including JSON data file {}", file_path.display());
-                serde_json::from_str(&content).map_err(|e| Error::InvalidData {
+                serde_json::from_str(&read()?).map_err(|e| Error::InvalidData {
                     error: format!("Invalid JSON file {}: {}", file_path.display(), e),
                 })?
             }
             "yaml" | "yml" => {
                 log::debug!("Including YAML data file {}", file_path.display());
-                serde_yaml::from_str(&content).map_err(|e| Error::InvalidData {
+                serde_yaml::from_str(&read()?).map_err(|e| Error::InvalidData {
                     error: format!("Invalid YAML file {}: {}", file_path.display(), e),
                 })?
             }
-- 
2.43.0


From e8b9d0d51df9bb3151a71e66c58746fa9ff1a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:07 +0000
Subject: [PATCH 42/46] fix: report a policy directory that cannot be read

Errors met while walking a policy directory were dropped, so a missing
directory given to live-check meant running without any policy.
---
 crates/weaver_checker/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_checker/src/lib.rs b/crates/weaver_checker/src/lib.rs
index 5a4a3bc..ade940e 100644
--- a/crates/weaver_checker/src/lib.rs
+++ b/crates/weaver_checker/src/lib.rs
@@ -484,11 +484,20 @@ impl Engine {
         };
 
         // Visit recursively all the files in the policy directory
-        for entry in walkdir::WalkDir::new(policy_dir)
+        for entry in walkdir::WalkDir::new(policy_dir.as_ref())
             .into_iter()
             .filter_entry(|e| !is_hidden(e))
-            .flatten()
         {
+            let entry = match entry {
+                Ok(entry) => entry,
+                Err(err) => {
+                    errors.push(Error::AccessDenied {
+                        path: policy_dir.as_ref().to_string_lossy().to_string(),
+                        error: err.to_string(),
+                    });
+                    continue;
+                }
+            };
             if is_policy_file(&entry) {
                 if let Err(err) = self.add_policy_from_file(entry.path()) {
                     errors.push(err);
-- 
2.43.0


From 51ed0fd839b03f10c915a512cc76071793c11d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 43/46] fix: merge every appearance of an attribute when
 inferring a registry

The definition of an attribute observed in several signals came from an
arbitrary one of them, so the type and examples changed from run to run, and
an attribute first observed without a value stayed a string.
---
 crates/weaver_infer/src/lib.rs | 99 +++++++++++++++++++++++++++-------
 1 file changed, 81 insertions(+), 18 deletions(-)

diff --git a/crates/weaver_infer/src/lib.rs b/crates/weaver_infer/src/lib.rs
index 2498313..38b1449 100644
--- a/crates/weaver_infer/src/lib.rs
+++ b/crates/weaver_infer/src/lib.rs
@@ -219,18 +219,26 @@ impl AccumulatedSamples {
     #[must_use]
     pub fn to_semconv_spec(&self) -> SemConvSpecV2 {
         let mut attribute_defs = HashMap::new();
+        // The same attribute may appear in several signals: visit them in a
+        // stable order, so that the same telemetry gives the same definitions.
         collect_attribute_defs(self.resources.values(), &mut attribute_defs);
+        for span in sorted_by_name(&self.spans) {
+            collect_attribute_defs(span.attributes.values(), &mut attribute_defs);
+            for event in sorted_by_name(&span.events) {
+                collect_attribute_defs(event.attributes.values(), &mut attribute_defs);
+            }
+        }
+        for metric in sorted_by_name(&self.metrics) {
+            collect_attribute_defs(metric.attributes.values(), &mut attribute_defs);
+        }
+        for event in sorted_by_name(&self.events) {
+            collect_attribute_defs(event.attributes.values(), &mut attribute_defs);
+        }
 
         let mut spans = self
             .spans
             .values()
             .map(|span| {
-                collect_attribute_defs(span.attributes.values(), &mut attribute_defs);
-
-                for event in span.events.values() {
-                    collect_attribute_defs(event.attributes.values(), &mut attribute_defs);
-                }
-
                 let mut attributes = span
                     .attributes
                     .keys()
@@ -259,8 +267,6 @@ impl AccumulatedSamples {
             .metrics
             .values()
             .map(|metric| {
-                collect_attribute_defs(metric.attributes.values(), &mut attribute_defs);
-
                 let mut attributes = metric
                     .attributes
                     .keys()
@@ -287,7 +293,6 @@ impl AccumulatedSamples {
             .events
             .values()
             .map(|event| {
-                collect_attribute_defs(event.attributes.values(), &mut attribute_defs);
                 (
                     event.name.clone(),
                     event.attributes.keys().cloned().collect::<Vec<_>>(),
@@ -297,7 +302,6 @@ impl AccumulatedSamples {
 
         for span in self.spans.values() {
             for event in span.events.values() {
-                collect_attribute_defs(event.attributes.values(), &mut attribute_defs);
                 let merged_attributes = merged_events.entry(event.name.clone()).or_default();
                 merged_attributes.extend(event.attributes.keys().cloned());
             }
@@ -362,20 +366,51 @@ fn attribute_spec_from_sample(sample: &SampleAttribute) -> AttributeSpec {
     }
 }
 
-/// Update an `AttributeSpec` examples field with a new value.
-fn update_attribute_example(attr: &mut AttributeSpec, value: &Option<Value>) {
-    if let Some(v) = value {
-        if let AttributeSpec::Id { examples, .. } = attr {
-            *examples = add_example(examples.take(), v);
+/// Update the type and examples of an `AttributeSpec` with another appearance
+/// of the attribute.
+fn update_attribute(attr: &mut AttributeSpec, sample: &SampleAttribute) {
+    if let (
+        AttributeSpec::Id {
+            r#type, examples, ..
+        },
+        Some(sample_type),
+    ) = (attr, &sample.r#type)
+    {
+        let sample_type = AttributeType::PrimitiveOrArray(sample_type.clone());
+        if adopt_type(r#type, examples, &sample_type) {
+            if let Some(v) = &sample.value {
+                *examples = add_example(examples.take(), v);
+            }
         }
     }
 }
 
+/// Returns true if examples of the type `other` fit an attribute inferred so
+/// far to be of type `current`.
+///
+/// A string without any example is the default type of an attribute never
+/// seen with a value: the first known type replaces it.
+fn adopt_type(
+    current: &mut AttributeType,
+    examples: &Option<Examples>,
+    other: &AttributeType,
+) -> bool {
+    if current != other && examples.is_none() && *current == default_type() {
+        *current = other.clone();
+    }
+    current == other
+}
+
+/// The type of an attribute never seen with a value.
+fn default_type() -> AttributeType {
+    AttributeType::PrimitiveOrArray(PrimitiveOrArrayTypeSpec::String)
+}
+
 /// Get or create an attribute in a map, updating examples if it already exists.
 fn accumulate_attribute(attributes: &mut HashMap<String, AttributeSpec>, sample: SampleAttribute) {
     match attributes.entry(sample.name.clone()) {
         std::collections::hash_map::Entry::Occupied(mut entry) => {
-            update_attribute_example(entry.get_mut(), &sample.value);
+            update_attribute(entry.get_mut(), &sample);
         }
         std::collections::hash_map::Entry::Vacant(entry) => {
             let _ = entry.insert(attribute_spec_from_sample(&sample));
@@ -550,12 +585,12 @@ fn collect_attribute_defs<'a>(
             ..
         } = attribute
         {
-            let _ = attribute_defs
+            let definition = attribute_defs
                 .entry(id.clone())
                 .or_insert_with(|| AttributeDef {
                     key: id.clone(),
                     r#type: r#type.clone(),
-                    examples: examples.clone(),
+                    examples: None,
                     common: CommonFields {
                         brief: brief.clone().unwrap_or_default(),
                         note: note.clone(),
@@ -564,10 +599,38 @@ fn collect_attribute_defs<'a>(
                         annotations: annotations.clone().unwrap_or_default(),
                     },
                 });
+            if adopt_type(&mut definition.r#type, &definition.examples, r#type) {
+                for value in example_values(examples) {
+                    definition.examples = add_example(definition.examples.take(), &value);
+                }
+            }
         }
     }
 }
 
+/// The individual values of inferred examples.
+fn example_values(examples: &Option<Examples>) -> Vec<Value> {
+    match examples {
+        Some(Examples::Bool(v)) => vec![Value::from(*v)],
+        Some(Examples::Bools(vs)) => vs.iter().map(|v| Value::from(*v)).collect(),
+        Some(Examples::Int(v)) => vec![Value::from(*v)],
+        Some(Examples::Ints(vs)) => vs.iter().map(|v| Value::from(*v)).collect(),
+        Some(Examples::Double(v)) => vec![Value::from(v.0)],
+        Some(Examples::Doubles(vs)) => vs.iter().map(|v| Value::from(v.0)).collect(),
+        Some(Examples::String(v)) => vec![Value::from(v.as_str())],
+        Some(Examples::Strings(vs)) => vs.iter().map(|v| Value::from(v.as_str())).collect(),
+        _ => vec![],
+    }
+}
+
+/// The values of a map in the order of their names.
+fn sorted_by_name<T>(map: &HashMap<String, T>) -> Vec<&T> {
+    map.iter()
+        .collect::<BTreeMap<_, _>>()
+        .into_values()
+        .collect()
+}
+
 fn span_attribute_ref_name(attribute: &SpanAttributeOrGroupRef) -> &str {
     match attribute {
         SpanAttributeOrGroupRef::Attribute(attribute) => &attribute.base.r#ref,
-- 
2.43.0


From 1f492cf31dbd8a81ec033941e8aa9333ffb58b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:45 +0000
Subject: [PATCH 44/46] fix: emit every span and event of a large registry

The batch processors dropped the spans and events beyond their default queue
size, and spans lost the attributes beyond the default limit, silently.
---
 crates/weaver_emit/src/lib.rs | 63 ++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/crates/weaver_emit/src/lib.rs b/crates/weaver_emit/src/lib.rs
index 6500cd9..e9d29de 100644
--- a/crates/weaver_emit/src/lib.rs
+++ b/crates/weaver_emit/src/lib.rs
@@ -8,12 +8,17 @@ use opentelemetry::global;
 use opentelemetry_otlp::{ExporterBuildError, MetricExporter, WithExportConfig};
 use opentelemetry_sdk::metrics::SdkMeterProvider;
 use opentelemetry_sdk::Resource;
-use opentelemetry_sdk::{metrics::PeriodicReader, trace::SdkTracerProvider};
+use opentelemetry_sdk::{
+    logs::{BatchConfigBuilder as LogBatchConfigBuilder, BatchLogProcessor},
+    metrics::PeriodicReader,
+    trace::{BatchConfigBuilder as SpanBatchConfigBuilder, BatchSpanProcessor, SdkTracerProvider},
+};
 use serde::Serialize;
 use spans::emit_trace_for_registry;
 use weaver_common::diagnostic::{DiagnosticMessage, DiagnosticMessages};
 use weaver_forge::registry::ResolvedRegistry;
 use weaver_forge::v2::registry::ForgeResolvedRegistry;
+use weaver_semconv::group::GroupType;
 
 use crate::logs::{emit_logs_for_registry, emit_logs_for_registry_v2};
 use crate::metrics::emit_metrics_for_registry_v2;
@@ -29,6 +34,10 @@ pub const DEFAULT_OTLP_ENDPOINT: &str = "http://localhost:4317";
 
 const WEAVER_SERVICE_NAME: &str = "weaver";
 
+/// The size of the batch processor queues when the registry does not need more
+/// (the default of the SDK).
+const MIN_QUEUE_SIZE: usize = 2048;
+
 /// An error that can occur while emitting a semantic convention registry.
 #[derive(thiserror::Error, Debug, Clone, PartialEq, Serialize, Diagnostic)]
 #[non_exhaustive]
@@ -67,24 +76,39 @@ impl From<Error> for DiagnosticMessages {
 
 /// Initialise a grpc OTLP exporter, sends to by default http://localhost:4317
 /// but can be overridden with the standard OTEL_EXPORTER_OTLP_ENDPOINT env var.
-fn init_tracer_provider(endpoint: &String) -> Result<SdkTracerProvider, ExporterBuildError> {
+///
+/// The spans of a registry are recorded faster than they are exported: the queue
+/// must hold all of them, the processor drops the others.
+fn init_tracer_provider(
+    endpoint: &String,
+    span_count: usize,
+) -> Result<SdkTracerProvider, ExporterBuildError> {
     let exporter = opentelemetry_otlp::SpanExporter::builder()
         .with_tonic()
         .with_endpoint(endpoint)
         .build()?;
+    let processor = BatchSpanProcessor::builder(exporter)
+        .with_batch_config(
+            SpanBatchConfigBuilder::default()
+                .with_max_queue_size(span_count.max(MIN_QUEUE_SIZE))
+                .build(),
+        )
+        .build();
     Ok(SdkTracerProvider::builder()
+        .with_max_attributes_per_span(u32::MAX)
         .with_resource(
             Resource::builder()
                 .with_service_name(WEAVER_SERVICE_NAME)
                 .build(),
         )
-        .with_batch_exporter(exporter)
+        .with_span_processor(processor)
         .build())
 }
 
 /// Initialise a stdout exporter for debug
 fn init_stdout_tracer_provider() -> SdkTracerProvider {
     SdkTracerProvider::builder()
+        .with_max_attributes_per_span(u32::MAX)
         .with_resource(
             Resource::builder()
                 .with_service_name(WEAVER_SERVICE_NAME)
@@ -133,6 +157,7 @@ fn init_stdout_meter_provider() -> SdkMeterProvider {
 /// but can be overridden with the standard OTEL_EXPORTER_OTLP_ENDPOINT env var.
 fn init_logger_provider(
     endpoint: &String,
+    event_count: usize,
 ) -> Result<opentelemetry_sdk::logs::SdkLoggerProvider, ExporterBuildError> {
     let resource = Resource::builder()
         .with_service_name(WEAVER_SERVICE_NAME)
@@ -143,9 +168,17 @@ fn init_logger_provider(
         .with_endpoint(endpoint)
         .build()?;
 
+    let processor = BatchLogProcessor::builder(exporter)
+        .with_batch_config(
+            LogBatchConfigBuilder::default()
+                .with_max_queue_size(event_count.max(MIN_QUEUE_SIZE))
+                .build(),
+        )
+        .build();
+
     Ok(opentelemetry_sdk::logs::SdkLoggerProvider::builder()
         .with_resource(resource)
-        .with_batch_exporter(exporter)
+        .with_log_processor(processor)
         .build())
 }
 
@@ -191,15 +224,22 @@ pub fn emit(
     let rt = tokio::runtime::Runtime::new().map_err(|e| Error::EmitError {
         error: e.to_string(),
     })?;
+    // The spans include the parent of all the others.
+    let (span_count, event_count) = match &registry {
+        RegistryVersion::V1(reg) => {
+            let count = |t: GroupType| reg.groups.iter().filter(|g| g.r#type == t).count();
+            (count(GroupType::Span) + 1, count(GroupType::Event))
+        }
+        RegistryVersion::V2(reg) => (reg.registry.spans.len() + 1, reg.registry.events.len()),
+    };
     rt.block_on(async {
         // Emit spans
         let tracer_provider = match exporter_config {
             ExporterConfig::Stdout => init_stdout_tracer_provider(),
-            ExporterConfig::Otlp { endpoint } => {
-                init_tracer_provider(endpoint).map_err(|e| Error::TracerProviderError {
+            ExporterConfig::Otlp { endpoint } => init_tracer_provider(endpoint, span_count)
+                .map_err(|e| Error::TracerProviderError {
                     error: e.to_string(),
-                })?
-            }
+                })?,
         };
         global::set_tracer_provider(tracer_provider.clone());
 
@@ -239,11 +279,10 @@ pub fn emit(
         // Emit logs
         let logger_provider = match exporter_config {
             ExporterConfig::Stdout => init_stdout_logger_provider(),
-            ExporterConfig::Otlp { endpoint } => {
-                init_logger_provider(endpoint).map_err(|e| Error::LogProviderError {
+            ExporterConfig::Otlp { endpoint } => init_logger_provider(endpoint, event_count)
+                .map_err(|e| Error::LogProviderError {
                     error: e.to_string(),
-                })?
-            }
+                })?,
         };
 
         match registry {
-- 
2.43.0


From 3cef4d6bda27526aea3a9936f384abb50befb778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 45/46] fix: report every finding of a sample in the MCP
 findings_only output

---
 crates/weaver_mcp/src/service.rs | 216 ++++++++++++++++++++-----------
 1 file changed, 144 insertions(+), 72 deletions(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 90ee3fc..37ab061 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -19,6 +19,8 @@ use weaver_live_check::advice::{
     Advisor, DeprecatedAdvisor, EnumAdvisor, RegoAdvisor, StabilityAdvisor, TypeAdvisor,
 };
 use weaver_live_check::live_checker::LiveChecker;
+use weaver_live_check::sample_attribute::SampleAttribute;
+use weaver_live_check::sample_metric::{DataPoints, SampleExemplar};
 use weaver_live_check::{
     DisabledStatistics, LiveCheckResult, LiveCheckRunner, LiveCheckStatistics, Sample,
     VersionedRegistry,
@@ -122,9 +124,7 @@ fn extract_findings(result: &Option<LiveCheckResult>) -> Vec<serde_json::Value>
 }
 
 /// Extract actionable findings from all attributes in a slice.
-fn extract_attr_findings(
-    attrs: &[weaver_live_check::sample_attribute::SampleAttribute],
-) -> Vec<serde_json::Value> {
+fn extract_attr_findings(attrs: &[SampleAttribute]) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
     for a in attrs {
         let findings = extract_findings(&a.live_check_result);
@@ -138,84 +138,150 @@ fn extract_attr_findings(
     out
 }
 
-/// Collect compact findings from all samples. Returns one entry per sample that has findings.
-fn collect_compact_findings(samples: &[Sample]) -> Vec<serde_json::Value> {
+/// Builds the compact entry of a sample without a name: its own findings and those of its
+/// attributes. `None` when it has neither.
+fn compact_entry(
+    sample_type: &str,
+    result: &Option<LiveCheckResult>,
+    attributes: &[SampleAttribute],
+) -> Option<serde_json::Value> {
+    let findings = extract_findings(result);
+    let attr_findings = extract_attr_findings(attributes);
+    (!findings.is_empty() || !attr_findings.is_empty()).then(|| {
+        json!({
+            "type": sample_type,
+            "findings": findings,
+            "attribute_findings": attr_findings,
+        })
+    })
+}
+
+/// Compact entries of the exemplars of a data point.
+fn exemplar_entries(exemplars: &[SampleExemplar]) -> Vec<serde_json::Value> {
+    exemplars
+        .iter()
+        .filter_map(|e| compact_entry("exemplar", &e.live_check_result, &e.filtered_attributes))
+        .collect()
+}
+
+/// Compact entries of the data points of a metric.
+fn data_point_entries(data_points: &DataPoints) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
-    for sample in samples {
-        match sample {
-            Sample::Attribute(a) => {
-                let findings = extract_findings(&a.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": a.name, "findings": findings}));
-                }
+    match data_points {
+        DataPoints::Number(points) => {
+            for p in points {
+                out.extend(compact_entry(
+                    "data_point",
+                    &p.live_check_result,
+                    &p.attributes,
+                ));
+                out.extend(exemplar_entries(&p.exemplars));
             }
-            Sample::Span(s) => {
-                let mut parts = extract_findings(&s.live_check_result);
-                let attr_findings = extract_attr_findings(&s.attributes);
-                if !parts.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "type": "span",
-                        "findings": parts,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
-                // Check nested span events/links attributes
-                for evt in &s.span_events {
-                    parts = extract_attr_findings(&evt.attributes);
-                    if !parts.is_empty() {
-                        out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                    }
-                }
+        }
+        DataPoints::Histogram(points) => {
+            for p in points {
+                out.extend(compact_entry(
+                    "data_point",
+                    &p.live_check_result,
+                    &p.attributes,
+                ));
+                out.extend(exemplar_entries(&p.exemplars));
             }
-            Sample::SpanEvent(e) => {
-                let parts = extract_attr_findings(&e.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                }
+        }
+        DataPoints::ExponentialHistogram(points) => {
+            for p in points {
+                out.extend(compact_entry(
+                    "data_point",
+                    &p.live_check_result,
+                    &p.attributes,
+                ));
+                out.extend(exemplar_entries(&p.exemplars));
             }
-            Sample::SpanLink(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_link", "attribute_findings": parts}));
-                }
+        }
+    }
+    out
+}
+
+/// Collect the compact findings of one sample: one entry for the sample and one for each of its
+/// nested parts (span events, span links, data points, exemplars) that has findings.
+fn collect_compact_findings(sample: &Sample) -> Vec<serde_json::Value> {
+    let mut out = Vec::new();
+    match sample {
+        Sample::Attribute(a) => {
+            let findings = extract_findings(&a.live_check_result);
+            if !findings.is_empty() {
+                out.push(json!({"name": a.name, "findings": findings}));
             }
-            Sample::Resource(r) => {
-                let parts = extract_attr_findings(&r.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "resource", "attribute_findings": parts}));
-                }
+        }
+        Sample::Span(s) => {
+            out.extend(compact_entry("span", &s.live_check_result, &s.attributes));
+            for e in &s.span_events {
+                out.extend(compact_entry(
+                    "span_event",
+                    &e.live_check_result,
+                    &e.attributes,
+                ));
             }
-            Sample::InstrumentationScope(scope) => {
-                let findings = extract_findings(&scope.live_check_result);
-                let attr_findings = extract_attr_findings(&scope.attributes);
-                if !findings.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "name": scope.name,
-                        "type": "instrumentation_scope",
-                        "findings": findings,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
+            for l in &s.span_links {
+                out.extend(compact_entry(
+                    "span_link",
+                    &l.live_check_result,
+                    &l.attributes,
+                ));
             }
-            Sample::Metric(m) => {
-                let findings = extract_findings(&m.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": m.name, "type": "metric", "findings": findings}));
-                }
+        }
+        Sample::SpanEvent(e) => {
+            out.extend(compact_entry(
+                "span_event",
+                &e.live_check_result,
+                &e.attributes,
+            ));
+        }
+        Sample::SpanLink(l) => {
+            out.extend(compact_entry(
+                "span_link",
+                &l.live_check_result,
+                &l.attributes,
+            ));
+        }
+        Sample::Resource(r) => {
+            out.extend(compact_entry(
+                "resource",
+                &r.live_check_result,
+                &r.attributes,
+            ));
+        }
+        Sample::InstrumentationScope(scope) => {
+            let findings = extract_findings(&scope.live_check_result);
+            let attr_findings = extract_attr_findings(&scope.attributes);
+            if !findings.is_empty() || !attr_findings.is_empty() {
+                out.push(json!({
+                    "name": scope.name,
+                    "type": "instrumentation_scope",
+                    "findings": findings,
+                    "attribute_findings": attr_findings,
+                }));
             }
-            Sample::Log(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "log", "attribute_findings": parts}));
-                }
+        }
+        Sample::Metric(m) => {
+            let findings = extract_findings(&m.live_check_result);
+            if !findings.is_empty() {
+                out.push(json!({"name": m.name, "type": "metric", "findings": findings}));
             }
-            Sample::Profile(p) => {
-                let parts = extract_attr_findings(&p.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "profile", "attribute_findings": parts}));
-                }
+            if let Some(data_points) = &m.data_points {
+                out.extend(data_point_entries(data_points));
             }
         }
+        Sample::Log(l) => {
+            out.extend(compact_entry("log", &l.live_check_result, &l.attributes));
+        }
+        Sample::Profile(p) => {
+            out.extend(compact_entry(
+                "profile",
+                &p.live_check_result,
+                &p.attributes,
+            ));
+        }
     }
     out
 }
@@ -521,12 +587,18 @@ impl WeaverMcpService {
                 serde_json::to_string_pretty(&samples).unwrap_or_else(|e| format!("Error: {e}"))
             }
             LiveCheckOutput::FindingsOnly => {
-                let findings = collect_compact_findings(&samples);
                 let total = samples.len();
+                let compact: Vec<_> = samples
+                    .iter()
+                    .map(collect_compact_findings)
+                    .filter(|entries| !entries.is_empty())
+                    .collect();
+                let samples_with_findings = compact.len();
+                let findings: Vec<_> = compact.into_iter().flatten().collect();
                 let result_json = json!({
                     "findings": findings,
                     "total_samples_checked": total,
-                    "samples_with_findings": findings.len(),
+                    "samples_with_findings": samples_with_findings,
                 });
                 serde_json::to_string_pretty(&result_json).unwrap_or_else(|e| format!("Error: {e}"))
             }
-- 
2.43.0


From 1060c52023d2415c951e9dc6063270f9672b1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 46/46] fix: find template attributes with the MCP
 get_attribute tool

---
 crates/weaver_mcp/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 37ab061..86bf1f8 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -484,7 +484,11 @@ impl WeaverMcpService {
                        full documentation."
     )]
     fn get_attribute(&self, Parameters(params): Parameters<GetAttributeParams>) -> String {
-        match self.search_context.get_attribute(&params.key) {
+        match self
+            .search_context
+            .get_attribute(&params.key)
+            .or_else(|| self.search_context.get_template(&params.key))
+        {
             Some(attr) => serde_json::to_string_pretty(attr.as_ref())
                 .unwrap_or_else(|e| format!("Error: {e}")),
             None => format!("Attribute '{}' not found in registry", params.key),
-- 
2.43.0

