From ff0d1f14dc47292d4fefd351d08d4fefb4f3176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/36] fix: validate client supplied packet size and query
 window in the query exchange

A packet size smaller than the metadata underflowed (panic, or an endless wait in
release builds), a huge one overflowed the target, a query window larger than the
payload panicked when slicing the query, and the debug assertion in resume() fired for
any exchange resumed with less than five unread bytes.
---
 server/src/engine/net/protocol/exchange.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 7522b97..7eb615f 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -170,7 +170,7 @@ impl QExchangeState {
         new_buffer.len() >= self.target
     }
     fn resume<'a>(self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        debug_assert!(scanner.has_left(Self::MIN_READ));
+        debug_assert!(scanner.buffer_len() >= Self::MIN_READ);
         match self.state {
             QExchangeStateInternal::Initial => self.start_initial(scanner),
             QExchangeStateInternal::PendingMeta1 => self.resume_at_md1(scanner),
@@ -199,7 +199,11 @@ impl QExchangeState {
             Err(()) => return QExchangeResult::Error,
         };
         self.md_packet_size = packet_size;
-        self.target = scanner.cursor() + packet_size as usize;
+        // the packet size is supplied by the client: it can't be trusted
+        self.target = match scanner.cursor().checked_add(packet_size as usize) {
+            Some(target) => target,
+            None => return QExchangeResult::Error,
+        };
         // hand over control to md2
         self.resume_at_md2(scanner)
     }
@@ -218,7 +222,15 @@ impl QExchangeState {
         self.resume_data(scanner)
     }
     fn resume_data<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        let df_size = self.target - scanner.cursor();
+        // both the packet size and the query window are supplied by the client: the packet must span at least the metadata that
+        // we've already read, and the query window must be a part of the remaining payload
+        let df_size = match self.target.checked_sub(scanner.cursor()) {
+            Some(df_size) => df_size,
+            None => return QExchangeResult::Error,
+        };
+        if self.md_q_window > df_size as u64 {
+            return QExchangeResult::Error;
+        }
         if scanner.remaining() == df_size {
             unsafe {
                 QExchangeResult::SQCompleted(SQuery::new(
-- 
2.43.0


From a0df54cefdd8a24deffb98b7d6173f20ba229f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 02/36] fix: handshake errors with several bad fields and
 overflowing auth lengths

The error index was the bitwise or of the indexes of all the bad fields, which can be
out of bounds; the sum of the client supplied username and password lengths could
wrap around, so that an out of bounds slice was created from the buffer.
---
 server/src/engine/net/protocol/handshake.rs | 46 ++++++++++++++-------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 29a798d..45cc090 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -305,15 +305,21 @@ impl<'a> CHandshake<'a> {
                 ProtocolError::RejectQueryMode,
                 ProtocolError::RejectAuth,
             ];
-            return HandshakeResult::Error(
-                ERROR[((invalid_first_byte as u8 * 1)
-                    | (invalid_hs_version as u8 * 2)
-                    | (invalid_proto_version as u8 * 3)
-                    | (invalid_exchange_mode as u8 * 4)
-                    | (invalid_query_mode as u8 * 5)
-                    | (invalid_auth_mode as u8) * 6) as usize
-                    - 1usize],
-            );
+            // multiple fields might be invalid: report the first one
+            let invalid_field = if invalid_first_byte {
+                0usize
+            } else if invalid_hs_version {
+                1
+            } else if invalid_proto_version {
+                2
+            } else if invalid_exchange_mode {
+                3
+            } else if invalid_query_mode {
+                4
+            } else {
+                5
+            };
+            return HandshakeResult::Error(ERROR[invalid_field]);
         }
         // init header
         let static_header = CHandshakeStatic::new(
@@ -335,7 +341,12 @@ impl<'a> CHandshake<'a> {
         uname_l: usize,
         pwd_l: usize,
     ) -> HandshakeResult<'a> {
-        if scanner.has_left(uname_l + pwd_l) {
+        // both lengths are supplied by the client: they can't be trusted
+        let payload_l = match uname_l.checked_add(pwd_l) {
+            Some(payload_l) => payload_l,
+            None => return HandshakeResult::Error(ProtocolError::CorruptedHSPacket),
+        };
+        if scanner.has_left(payload_l) {
             // we're done here
             return unsafe {
                 // UNSAFE(@ohsayan): we just checked buffered size
@@ -350,7 +361,7 @@ impl<'a> CHandshake<'a> {
                 uname_l,
                 pwd_l,
             },
-            expect: (uname_l + pwd_l),
+            expect: payload_l,
         }
     }
 }
@@ -400,9 +411,16 @@ impl<'a> CHandshake<'a> {
             ScannerDecodeResult::Value(v) => v as usize,
             ScannerDecodeResult::NeedMore => {
                 // newline missing (or maybe there's more?)
-                return HandshakeResult::ChangeState {
-                    new_state: HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l },
-                    expect: uname_l + 2, // space for username + password len
+                // space for username + password len
+                return match uname_l.checked_add(2) {
+                    Some(expect) => HandshakeResult::ChangeState {
+                        new_state: HandshakeState::ExpectingMetaForVariableBlock {
+                            static_hs,
+                            uname_l,
+                        },
+                        expect,
+                    },
+                    None => HandshakeResult::Error(ProtocolError::CorruptedHSPacket),
                 };
             }
             ScannerDecodeResult::Error => {
-- 
2.43.0


From afd620824bc9056ab06324b319410fb3627176d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 03/36] fix: make updates atomic and validate every assignment

Failed operators (overflow, bad operator) stored the wrapped/null value and reported success, division by zero panicked, null
fields were assigned without a range check, elements added to lists were neither range checked nor rolled back (and adding to a
null list read an uninitialized list), and several changes to one field were rolled back in the wrong order.
---
 server/src/engine/core/dml/upd.rs   | 68 +++++++++++++++++++++++------
 server/src/engine/core/model/mod.rs |  4 ++
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index d8af4f8..a491f62 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -79,8 +79,11 @@ unsafe fn dc_op_uint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
 }
 unsafe fn dc_op_uint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let kind = UIntSpec::from_full(dc.tag());
-    let (uint, did_of) = dc.uint().overflowing_div(rhs.uint());
-    (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
+    match dc.uint().checked_div(rhs.uint()) {
+        Some(uint) => (kind.check(uint), Datacell::new_uint(uint, kind)),
+        // division by zero
+        None => dc_op_fail(dc, rhs),
+    }
 }
 // sint
 unsafe fn dc_op_sint_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
@@ -105,8 +108,11 @@ unsafe fn dc_op_sint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
 }
 unsafe fn dc_op_sint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let kind = SIntSpec::from_full(dc.tag());
-    let (sint, did_of) = dc.sint().overflowing_div(rhs.sint());
-    (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
+    match dc.sint().checked_div(rhs.sint()) {
+        Some(sint) => (kind.check(sint), Datacell::new_sint(sint, kind)),
+        // division by zero (or overflow)
+        None => dc_op_fail(dc, rhs),
+    }
 }
 /*
     float
@@ -313,27 +319,49 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
                 (tag_a, tag_b)
                     if (tag_a == tag_b) & (tag_a < TagClass::List) & field_data.is_init() =>
                 {
-                    let (okay, new) = unsafe { OPERATOR[opc(tag_a, operator_fn)](field_data, rhs) };
-                    rollback_now &= !okay;
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, new)));
+                    let (okay, new) = unsafe {
+                        // UNSAFE(@ohsayan): same tag class. the cell might have an older (narrower) tag if the field's type was altered
+                        field_data.set_tag(field_definition.layers()[0].tag());
+                        OPERATOR[opc(tag_a, operator_fn)](field_data, rhs)
+                    };
                     input_trace("sametag;nonnull");
+                    if okay {
+                        rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
+                    } else {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
                 }
                 (tag_a, tag_b)
                     if (tag_a == tag_b)
                         & field_data.is_null()
                         & (operator_fn == AssignmentOperator::Assign) =>
                 {
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, rhs.into())));
+                    let mut new = Datacell::from(rhs);
                     input_trace("sametag;orignull");
+                    if field_definition.vt_data_fpath(&mut new) {
+                        rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
+                    } else {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
                 }
-                (TagClass::List, tag_b) if operator_fn == AssignmentOperator::AddAssign => {
-                    if field_definition.layers()[1].tag().tag_class() == tag_b {
+                (TagClass::List, tag_b)
+                    if (operator_fn == AssignmentOperator::AddAssign) & field_data.is_init() =>
+                {
+                    let mut new = Datacell::from(rhs);
+                    if (field_definition.layers()[1].tag().tag_class() == tag_b)
+                        && field_definition.vt_list_element(&mut new)
+                    {
                         unsafe {
                             // UNSAFE(@ohsayan): matched tags
                             let mut list = field_data.read_list().write();
                             if list.try_reserve(1).is_ok() {
                                 input_trace("list;sametag");
-                                list.push(rhs.into());
+                                list.push(new);
+                                rollback_data.push((lhs.as_str(), None));
                             } else {
                                 rollback_now = true;
                                 ret = Err(QueryError::SysOutOfMemory);
@@ -357,10 +385,24 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         }
         if compiler::unlikely(rollback_now) {
             input_trace("rollback");
+            // undo the changes, latest first (a field might have been changed multiple times)
             rollback_data
                 .into_iter()
-                .for_each(|(field_id, restored_data)| {
-                    row_data_wl.fields_mut().st_update(field_id, restored_data);
+                .rev()
+                .for_each(|(field_id, restored_data)| match restored_data {
+                    Some(restored_data) => {
+                        row_data_wl.fields_mut().st_update(field_id, restored_data);
+                    }
+                    None => {
+                        // an element was added to a list
+                        if let Some(list) = row_data_wl
+                            .fields()
+                            .st_get(field_id)
+                            .and_then(Datacell::try_list)
+                        {
+                            list.write().pop();
+                        }
+                    }
                 });
         } else {
             // update revised tag
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 3d24e4d..31d9e32 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -604,6 +604,10 @@ impl Field {
             Self::rvt_data(self.layers(), data)
         }
     }
+    /// Verify the type of an element of this list (this field **must** be a list)
+    pub fn vt_list_element(&self, data: &mut Datacell) -> bool {
+        Self::rvt_data(&self.layers()[1..], data)
+    }
     fn rvt_data(layers: &[Layer], data: &mut Datacell) -> bool {
         let layer = layers[0];
         let layers = &layers[1..];
-- 
2.43.0


From afde8f8e1b1aa3539fc8c83dbba2c5e9c65d0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 04/36] fix: apply schema changes to rows that were created
 before them

The first delta after a row was written carried the row's own schema version and was skipped, so a column added by ALTER stayed
invisible in existing rows (select panicked on it); updates didn't apply pending schema changes at all.
---
 server/src/engine/core/dml/upd.rs     | 2 ++
 server/src/engine/core/model/delta.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index a491f62..e010ec7 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -273,6 +273,8 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         let Some(row) = mdl.primary_index().select(key, &g) else {
             return Err(QueryError::QExecDmlRowNotFound);
         };
+        // make sure that the row has all the fields in the current schema
+        drop(row.resolve_schema_deltas_and_freeze(mdl.delta_state()));
         // lock row
         let mut row_data_wl = row.d_data().write();
         // create new version
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 84e2aaa..de4c86c 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -131,9 +131,9 @@ impl DeltaState {
 
 impl DeltaState {
     fn __schema_delta_step(&mut self) -> DeltaVersion {
-        let current = self.schema_current_version;
+        // a delta is identified by the schema version that it creates: a row at version `v` has every delta <= `v` applied
         self.schema_current_version += 1;
-        DeltaVersion(current)
+        DeltaVersion(self.schema_current_version)
     }
     fn __schema_append_unresolved_delta(&mut self, part: SchemaDeltaPart) -> DeltaVersion {
         let v = self.__schema_delta_step();
-- 
2.43.0


From 754ab87bfe4c9b87f385772fabc35f445966c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 05/36] fix: restore the columns of old data batches by the
 schema they were written with

After a column was removed by ALTER, a restart assigned the columns of every older data batch to the wrong fields.
---
 server/src/engine/core/index/row.rs           |  2 +-
 server/src/engine/core/model/delta.rs         | 11 +++----
 server/src/engine/core/model/mod.rs           | 29 ++++++++++++++++++-
 .../engine/storage/v2/impls/mdl_journal.rs    | 16 ++++++----
 4 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 656422d..d9a31a1 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -168,7 +168,7 @@ impl Row {
                         Datacell::null(),
                     );
                 }
-                SchemaDeltaKind::FieldRem(f) => {
+                SchemaDeltaKind::FieldRem(f, _) => {
                     wl.fields.st_delete(f);
                 }
             }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index de4c86c..32c45ae 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -124,8 +124,8 @@ impl DeltaState {
     pub fn unresolved_append_field_add(&mut self, field_name: RawStr) {
         self.__schema_append_unresolved_delta(SchemaDeltaPart::field_add(field_name));
     }
-    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr) {
-        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name));
+    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr, position: usize) {
+        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name, position));
     }
 }
 
@@ -184,7 +184,8 @@ impl SchemaDeltaPart {
 #[derive(Debug)]
 pub enum SchemaDeltaKind {
     FieldAdd(RawStr),
-    FieldRem(RawStr),
+    /// a removed field, along with its position in the (ordered) fields before it was removed
+    FieldRem(RawStr, usize),
 }
 
 impl SchemaDeltaPart {
@@ -194,8 +195,8 @@ impl SchemaDeltaPart {
     fn field_add(field_name: RawStr) -> Self {
         Self::new(SchemaDeltaKind::FieldAdd(field_name))
     }
-    fn field_rem(field_name: RawStr) -> Self {
-        Self::new(SchemaDeltaKind::FieldRem(field_name))
+    fn field_rem(field_name: RawStr, position: usize) -> Self {
+        Self::new(SchemaDeltaKind::FieldRem(field_name, position))
     }
 }
 
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 31d9e32..1d38e0d 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -132,6 +132,27 @@ impl ModelData {
     pub fn fields(&self) -> &Fields {
         &self.fields
     }
+    /// Returns the names of the fields, in order, that this model had at the given schema version
+    pub fn field_names_at(&self, schema_version: DeltaVersion) -> Vec<RawStr> {
+        unsafe {
+            // UNSAFE(@ohsayan): the names live as long as the model does
+            let mut fields: Vec<RawStr> =
+                self.fields.stseq_ord_key().map(|name| name.clone()).collect();
+            // undo all the later changes, latest first
+            for (_, delta) in self.delta.resolve_iter_since(schema_version).rev() {
+                match delta.kind() {
+                    SchemaDeltaKind::FieldAdd(_) => {
+                        // fields are always added to the end
+                        fields.pop();
+                    }
+                    SchemaDeltaKind::FieldRem(name, position) => {
+                        fields.insert((*position).min(fields.len()), name.clone());
+                    }
+                }
+            }
+            fields
+        }
+    }
     pub fn model_mutator<'a>(&'a mut self) -> ModelMutator<'a> {
         ModelMutator { model: self }
     }
@@ -473,11 +494,17 @@ impl<'a> ModelMutator<'a> {
     }
     pub fn remove_field(&mut self, name: &str) -> bool {
         // remove
+        let position = self
+            .model
+            .fields
+            .stseq_ord_key()
+            .position(|field| field.as_str() == name)
+            .unwrap_or_default();
         let r = self.model.fields.st_delete(name);
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
         // publish delta
-        self.model.delta.unresolved_append_field_rem(ptr);
+        self.model.delta.unresolved_append_field_rem(ptr, position);
         r
     }
     pub fn add_field(&mut self, name: Box<str>, field: Field) -> bool {
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 6870eda..a383316 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -512,6 +512,15 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
+        // the rows in this batch have the fields that the model had when the batch was written (and these might have changed since)
+        let batch_fields: Vec<_> = m
+            .field_names_at(DeltaVersion::__new(batch_md.schema_version))
+            .into_iter()
+            .filter(|field_name| field_name.as_str() != m.p_key())
+            .collect();
+        if batch_fields.len() as u64 != batch_md.column_count {
+            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+        }
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
@@ -534,12 +543,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                         real_last_txn_id = txn_id;
                     }
                     let mut data = DcFieldIndex::default();
-                    for (field_name, new_data) in m
-                        .fields()
-                        .stseq_ord_key()
-                        .filter(|key| key.as_str() != m.p_key())
-                        .zip(new_row)
-                    {
+                    for (field_name, new_data) in batch_fields.iter().zip(new_row) {
                         data.st_insert(
                             unsafe {
                                 // UNSAFE(@ohsayan): model in scope, we're good
-- 
2.43.0


From fae87e1f090dd7e47c4900d3d270a0da13e3f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 06/36] fix: never move the data version of a restored model
 backwards

The last batch determined the version counter, an empty batch reset it to one; rows updated afterwards got versions older than
their own and the next restart failed.
---
 server/src/engine/core/model/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 32c45ae..2fcfb85 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -64,7 +64,7 @@ impl DeltaState {
     }
     pub fn __set_delta_version(&self, version: DeltaVersion) {
         self.data_current_version
-            .store(version.value_u64(), Ordering::Relaxed)
+            .fetch_max(version.value_u64(), Ordering::Relaxed);
     }
 }
 
-- 
2.43.0


From 456736a07d8d7b390bf71cc5390276406b7ce5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 07/36] fix: allow root to alter the other users

ALTER USER needs root, but was refused for root instead of for the root account: no user could ever be altered.
---
 server/src/engine/core/dcl.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/server/src/engine/core/dcl.rs b/server/src/engine/core/dcl.rs
index bac0c3e..358a5a3 100644
--- a/server/src/engine/core/dcl.rs
+++ b/server/src/engine/core/dcl.rs
@@ -25,6 +25,7 @@
 */
 
 use crate::engine::{
+    core::system_db::SystemDatabase,
     data::{tag::TagClass, DictEntryGeneric},
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -45,7 +46,7 @@ pub fn exec<G: GlobalInstanceLike>(
     match cmd {
         SysctlCommand::CreateUser(new) => create_user(&g, new),
         SysctlCommand::DropUser(drop) => drop_user(&g, current_user, drop),
-        SysctlCommand::AlterUser(usermod) => alter_user(&g, current_user, usermod),
+        SysctlCommand::AlterUser(usermod) => alter_user(&g, usermod),
         SysctlCommand::ReportStatus => {
             if g.health().status_okay() {
                 Ok(())
@@ -56,12 +57,8 @@ pub fn exec<G: GlobalInstanceLike>(
     }
 }
 
-fn alter_user(
-    global: &impl GlobalInstanceLike,
-    cstate: &ClientLocalState,
-    user: UserDecl,
-) -> QueryResult<()> {
-    if cstate.is_root() {
+fn alter_user(global: &impl GlobalInstanceLike, user: UserDecl) -> QueryResult<()> {
+    if user.username() == SystemDatabase::ROOT_ACCOUNT {
         // the root password can only be changed by shutting down the server
         return Err(QueryError::SysAuthError);
     }
-- 
2.43.0


From 7d6d92a9637adfd6a0e4302f0d6f0d36ac6eb5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 08/36] fix: reject passwords that can't be hashed instead of
 panicking

A login with a password that contains a NUL byte and user statements with an empty password panicked.
---
 server/src/engine/core/system_db.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index 27e5321..8d15ea1 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -95,8 +95,8 @@ impl SystemDatabase {
                             VerifyUser::Okay
                         }
                     }
-                    Ok(false) => VerifyUser::IncorrectPassword,
-                    Err(_) => unreachable!(),
+                    // an error indicates that the (client supplied) password contains illegal bytes
+                    Ok(false) | Err(_) => VerifyUser::IncorrectPassword,
                 }
             })
             .unwrap_or(VerifyUser::NotFound)
@@ -128,6 +128,11 @@ impl SystemDatabase {
 }
 
 impl SystemDatabase {
+    fn hash_password(password: &str) -> QueryResult<Vec<u8>> {
+        // fails if the password is empty or contains illegal bytes
+        rcrypt::hash(password, rcrypt::DEFAULT_COST)
+            .map_err(|_| QueryError::QExecDdlInvalidProperties)
+    }
     pub fn create_user(
         &self,
         global: &impl GlobalInstanceLike,
@@ -138,7 +143,7 @@ impl SystemDatabase {
         if users.contains_key(&username) {
             return Err(QueryError::SysAuthError);
         }
-        let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+        let password_hash = Self::hash_password(password)?;
         global.state().gns_driver().driver_context(
             global,
             |drv| drv.commit_event(CreateUserTxn::new(&username, &password_hash)),
@@ -155,7 +160,7 @@ impl SystemDatabase {
     ) -> QueryResult<()> {
         match self.users.write().get_mut(username) {
             Some(user) => {
-                let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+                let password_hash = Self::hash_password(password)?;
                 global.state().gns_driver().driver_context(
                     global,
                     |drv| drv.commit_event(AlterUserTxn::new(username, &password_hash)),
-- 
2.43.0


From cb3d487a0cd44dc8a921a85e47947e17f3e767a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 09/36] fix: reject signed integers without any digits

A lone minus sign was accepted as zero.
---
 server/src/engine/mem/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/mem/scanner.rs b/server/src/engine/mem/scanner.rs
index 2f2a2f0..20de952 100644
--- a/server/src/engine/mem/scanner.rs
+++ b/server/src/engine/mem/scanner.rs
@@ -362,7 +362,8 @@ impl<'a> Scanner<'a, u8> {
             // UNSAFE(@ohsayan): not eof
             self.incr_cursor_if(direction_negative)
         }
-        let mut okay = direction_negative | current.is_ascii_digit() & !self.eof();
+        // we need atleast one digit
+        let mut okay = self.rounded_cursor_not_eof_matches(u8::is_ascii_digit);
         while self.rounded_cursor_not_eof_matches(|b| !stop_if(*b)) & okay {
             let byte = unsafe {
                 // UNSAFE(@ohsayan): loop invariant
-- 
2.43.0


From a70be382428cd4e5fee0c4414b7b483bea137a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 10/36] fix: don't overflow while hashing long type names

---
 server/src/engine/core/model/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 1d38e0d..df22074 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -732,10 +732,10 @@ impl Layer {
         Self::new(tag)
     }
     fn hf(key: &[u8], v: [u8; 7]) -> u16 {
-        let mut tot = 0;
+        let mut tot = 0u16;
         let mut i = 0;
         while i < key.len() {
-            tot += v[i % v.len()] as u16 * key[i] as u16;
+            tot = tot.wrapping_add(v[i % v.len()] as u16 * key[i] as u16);
             i += 1;
         }
         tot % 15
-- 
2.43.0


From 7a133e613ec5724e39696011c710fe8cac58f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 11/36] fix: allow models with a single field

---
 server/src/engine/ql/ddl/crt.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/ql/ddl/crt.rs b/server/src/engine/ql/ddl/crt.rs
index 693cc8b..7634583 100644
--- a/server/src/engine/ql/ddl/crt.rs
+++ b/server/src/engine/ql/ddl/crt.rs
@@ -134,7 +134,8 @@ impl<'a> CreateModel<'a> {
         }
     }
     fn parse<Qd: QueryData<'a>>(state: &mut State<'a, Qd>) -> QueryResult<Self> {
-        if compiler::unlikely(state.remaining() < 10) {
+        // smallest declaration: `create model mymodel(ident: type)` -> >= 6 tokens
+        if compiler::unlikely(state.remaining() < 6) {
             return compiler::cold_rerr(QueryError::QLUnexpectedEndOfStatement);
         }
         // if not exists?
@@ -142,8 +143,9 @@ impl<'a> CreateModel<'a> {
         state.cursor_ahead_by(if_not_exists as usize * 3);
         // model name; ignore errors
         let model_uninit = state.try_entity_buffered_into_state_uninit();
-        state.poison_if_not(state.cursor_eq(Token![() open]));
-        state.cursor_ahead();
+        let fields_open = state.cursor_rounded_eq(Token![() open]);
+        state.poison_if_not(fields_open);
+        state.cursor_ahead_if(fields_open);
         // fields
         let mut stop = false;
         let mut fields = Vec::with_capacity(2);
-- 
2.43.0


From 25d00f9c2bf72684c04c35327091cdf9b0696292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:44 +0000
Subject: [PATCH 12/36] fix: reject nullable implicit primary keys

---
 server/src/engine/core/model/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index df22074..ab11dbe 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -290,8 +290,10 @@ impl ModelData {
                 // UNSAFE(@ohsayan): once again, all of this is allocated
                 fields.stseq_ord_key().next().unwrap().clone()
             });
-            let tag = fields.st_get(&last_pk).unwrap().layers()[0].tag;
-            if tag.tag_unique().is_unique() {
+            let pk_field = fields.st_get(&last_pk).unwrap();
+            let tag = pk_field.layers()[0].tag;
+            // the primary key may be implicit (first field), so this has to be checked here
+            if tag.tag_unique().is_unique() & !pk_field.is_nullable() {
                 return Ok(Self::new_with_private(
                     Uuid::new(),
                     last_pk,
-- 
2.43.0


From 06369a3c81b6c8d1d0a35c1726d7bfba7d50f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:44 +0000
Subject: [PATCH 13/36] fix: keep the order of fields when a field is altered

---
 server/src/engine/core/model/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index ab11dbe..b061b1a 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -521,7 +521,14 @@ impl<'a> ModelMutator<'a> {
         }
     }
     pub fn update_field(&mut self, name: &str, field: Field) -> bool {
-        self.model.fields.st_update(name, field)
+        // update in place: the order of the fields must not change
+        match self.model.fields.st_get_mut(name) {
+            Some(current_field) => {
+                *current_field = field;
+                true
+            }
+            None => false,
+        }
     }
 }
 
-- 
2.43.0


From dcbcd10bd1ce49b41abb3ddbed86aace48594296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:03 +0000
Subject: [PATCH 14/36] fix: comparing a bool cell with a null cell must not
 panic

---
 server/src/engine/data/cell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/data/cell.rs b/server/src/engine/data/cell.rs
index af67c50..47c97c5 100644
--- a/server/src/engine/data/cell.rs
+++ b/server/src/engine/data/cell.rs
@@ -415,8 +415,8 @@ impl fmt::Debug for Datacell {
 
 impl PartialEq for Datacell {
     fn eq(&self, other: &Datacell) -> bool {
-        if self.is_null() {
-            return other.is_null();
+        if self.is_null() | other.is_null() {
+            return self.is_null() & other.is_null();
         }
         match (self.kind(), other.kind()) {
             (TagClass::Bool, TagClass::Bool) => self.bool() == other.bool(),
-- 
2.43.0


From 6591229a8a3ac75f420bff6cc703f535798ffd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:14 +0000
Subject: [PATCH 15/36] fix: clone the bytes of binary and string primary keys

---
 server/src/engine/core/index/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/index/key.rs b/server/src/engine/core/index/key.rs
index 351284f..fcb908e 100644
--- a/server/src/engine/core/index/key.rs
+++ b/server/src/engine/core/index/key.rs
@@ -52,7 +52,7 @@ pub struct PrimaryIndexKey {
 impl Clone for PrimaryIndexKey {
     fn clone(&self) -> Self {
         match self.tag {
-            TagUnique::SignedInt | TagUnique::UnsignedInt => {
+            TagUnique::Bin | TagUnique::Str => {
                 let (qw, nw) = self.data.dwordqn_load_qw_nw();
                 unsafe {
                     let slice = slice::from_raw_parts(nw as *const u8, qw as _);
@@ -63,7 +63,7 @@ impl Clone for PrimaryIndexKey {
                     }
                 }
             }
-            TagUnique::Bin | TagUnique::Str => Self {
+            TagUnique::SignedInt | TagUnique::UnsignedInt => Self {
                 tag: self.tag,
                 data: unsafe { core::mem::transmute_copy(&self.data) },
             },
-- 
2.43.0


From e9f4bd2c25135c8b9c85ea01c6e0de0396935f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:25 +0000
Subject: [PATCH 16/36] fix: decoding a damaged dictionary, field map or string
 reads past the end of the buffer

---
 server/src/engine/storage/common_encoding/r1/map.rs |  8 +++++---
 server/src/engine/storage/common_encoding/r1/mod.rs | 11 ++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/storage/common_encoding/r1/map.rs b/server/src/engine/storage/common_encoding/r1/map.rs
index 39b5793..1169a8c 100644
--- a/server/src/engine/storage/common_encoding/r1/map.rs
+++ b/server/src/engine/storage/common_encoding/r1/map.rs
@@ -84,8 +84,7 @@ impl<'a, M: MapStorageSpec> PersistObject for PersistMapImpl<'a, M> {
         MapIndexSizeMD(dict_size): Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let mut dict = M::RestoredMap::map_new();
-        let decode_pretest_for_entry_meta = M::decode_pretest_for_entry_meta(scanner);
-        while decode_pretest_for_entry_meta & (dict.map_length() != dict_size) {
+        while M::decode_pretest_for_entry_meta(scanner) & (dict.map_length() != dict_size) {
             let md = unsafe {
                 // UNSAFE(@ohsayan): +pretest
                 M::decode_entry_meta(scanner).ok_or::<StorageError>(
@@ -198,7 +197,10 @@ impl MapStorageSpec for GenericDictSpec {
     }
     fn decode_pretest_for_entry_data(s: &mut BufferedScanner, md: &Self::EntryMetadata) -> bool {
         StorageCellTypeID::is_valid(md.dscr)
-            & s.has_left(StorageCellTypeID::expect_atleast(md.dscr))
+            & s.has_left(
+                md.klen
+                    .saturating_add(StorageCellTypeID::expect_atleast(md.dscr)),
+            )
     }
     unsafe fn decode_entry_meta(s: &mut BufferedScanner) -> Option<Self::EntryMetadata> {
         Some(Self::EntryMetadata::decode(s.next_chunk()))
diff --git a/server/src/engine/storage/common_encoding/r1/mod.rs b/server/src/engine/storage/common_encoding/r1/mod.rs
index 56ee59f..c6b7fef 100644
--- a/server/src/engine/storage/common_encoding/r1/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/mod.rs
@@ -69,7 +69,9 @@ impl<'a> DataSource for BufferedScanner<'a> {
         Ok(self.next_u64_le())
     }
     unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
-        Ok(self.next_chunk_variable(size).into())
+        self.try_next_variable_block(size)
+            .map(|block| block.into())
+            .ok_or(())
     }
 }
 
@@ -276,8 +278,11 @@ pub mod dec {
             mem::BufferedScanner,
         };
         pub unsafe fn decode_string(s: &mut BufferedScanner, len: usize) -> RuntimeResult<String> {
-            String::from_utf8(s.next_chunk_variable(len).to_owned())
-                .map_err(|_| StorageError::InternalDecodeStructureCorruptedPayload.into())
+            match s.try_next_variable_block(len) {
+                Some(block) => String::from_utf8(block.to_owned())
+                    .map_err(|_| StorageError::InternalDecodeStructureCorruptedPayload.into()),
+                None => Err(StorageError::InternalDecodeStructureCorruptedPayload.into()),
+            }
         }
     }
 }
-- 
2.43.0


From d9b04832916249b2784f2a671be2cbfa2311053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 17/36] fix: a damaged length in a stored user or model event
 overflows the bounds check or the allocation

---
 .../common_encoding/r1/impls/gns/model.rs     | 31 ++++++++++++++-----
 .../src/engine/storage/common_encoding/r2.rs  |  4 +--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
index faafbab..0cfa760 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
@@ -92,7 +92,7 @@ impl<'a> PersistObject for ModelID<'a> {
     type OutputType = ModelIDRes;
     type Metadata = ModelIDMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left(md.model_name_l as usize + md.space_id.space_name_l as usize)
+        scanner.has_left(md.model_name_l.saturating_add(md.space_id.space_name_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         <super::SpaceID as PersistObject>::meta_enc(buf, data.space_id());
@@ -202,7 +202,12 @@ impl<'a> PersistObject for CreateModelTxn<'a> {
     type OutputType = CreateModelTxnRestorePL;
     type Metadata = CreateModelTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.model_meta.p_key_len() + md.model_name_l) as usize)
+        scanner.has_left(
+            md.space_id_meta
+                .space_name_l
+                .saturating_add(md.model_name_l)
+                .saturating_add(md.model_meta.p_key_len()) as usize,
+        )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // space ID
@@ -313,7 +318,10 @@ impl<'a> PersistObject for AlterModelAddTxn<'a> {
     type Metadata = AlterModelAddTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            (md.model_id_meta.space_id.space_name_l + md.model_id_meta.model_name_l) as usize,
+            md.model_id_meta
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_meta.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -394,7 +402,10 @@ impl<'a> PersistObject for AlterModelRemoveTxn<'a> {
     type Metadata = AlterModelRemoveTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            (md.model_id_meta.space_id.space_name_l + md.model_id_meta.model_name_l) as usize,
+            md.model_id_meta
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_meta.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -420,7 +431,7 @@ impl<'a> PersistObject for AlterModelRemoveTxn<'a> {
         md: Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let model_id = <ModelID as PersistObject>::obj_dec(s, md.model_id_meta)?;
-        let mut removed_fields = Vec::with_capacity(md.remove_field_c as usize);
+        let mut removed_fields = Vec::new();
         while !s.eof()
             & (removed_fields.len() as u64 != md.remove_field_c)
             & s.has_left(sizeof!(u64))
@@ -484,7 +495,10 @@ impl<'a> PersistObject for AlterModelUpdateTxn<'a> {
     type Metadata = AlterModelUpdateTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            md.model_id_md.space_id.space_name_l as usize + md.model_id_md.model_name_l as usize,
+            md.model_id_md
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_md.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -558,7 +572,10 @@ impl<'a> PersistObject for DropModelTxn<'a> {
     type Metadata = DropModelTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            md.model_id_md.space_id.space_name_l as usize + md.model_id_md.model_name_l as usize,
+            md.model_id_md
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_md.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
diff --git a/server/src/engine/storage/common_encoding/r2.rs b/server/src/engine/storage/common_encoding/r2.rs
index bd05e6d..bb7483d 100644
--- a/server/src/engine/storage/common_encoding/r2.rs
+++ b/server/src/engine/storage/common_encoding/r2.rs
@@ -94,7 +94,7 @@ impl<'a> PersistObject for CreateUserTxn<'a> {
     type OutputType = FullUserDefinition;
     type Metadata = CreateUserMetadata;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.uname_l + md.pwd_l) as usize)
+        scanner.has_left(md.uname_l.saturating_add(md.pwd_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // [username length: 8B][password length: 8B][properties length: 8B]
@@ -154,7 +154,7 @@ impl<'a> PersistObject for AlterUserTxn<'a> {
     type OutputType = FullUserDefinition;
     type Metadata = CreateUserMetadata;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.uname_l + md.pwd_l) as usize)
+        scanner.has_left(md.uname_l.saturating_add(md.pwd_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // [username length: 8B][password length: 8B][properties length: 8B]
-- 
2.43.0


From 0c8e1a7ce4da8e81166d7b32100e168848b16c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 18/36] fix: a damaged length in a journal record is allocated
 before it is checked against the file

---
 server/src/engine/storage/v1/raw/batch_jrnl/restore.rs | 6 ++++++
 server/src/engine/storage/v2/impls/mdl_journal.rs      | 6 ++++++
 server/src/engine/storage/v2/raw/journal/mod.rs        | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 91da055..8f7e8f5 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -475,6 +475,9 @@ impl DataBatchRestoreDriver {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = self.f.read_u64_le()?;
+                if !self.f.has_left(len) {
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 self.f.tracked_read(&mut data)?;
                 if pk_type == TagUnique::Str {
@@ -536,6 +539,9 @@ impl DataSource for TrackedReader {
         Ok(self.read_u64_le()?)
     }
     unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
+        if !self.has_left(size as u64) {
+            return Err(().into());
+        }
         let mut buf = vec![0; size];
         self.tracked_read(&mut buf)?;
         Ok(buf)
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index a383316..27396ed 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -656,6 +656,9 @@ mod restore_impls {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = u64::from_le_bytes(f.read_block()?);
+                if f.remaining() < len {
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 f.read(&mut data)?;
                 if pk_type == TagUnique::Str {
@@ -728,6 +731,9 @@ mod restore_impls {
             self.read_next_block().map(u64::from_le_bytes)
         }
         unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
+            if !self.has_remaining(size) {
+                return Err(().into());
+            }
             let mut buf = vec![0; size];
             self.read(&mut buf)?;
             Ok(buf)
diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 230849d..6e55e75 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -130,6 +130,9 @@ impl<EL: EventLogSpec> RawJournalAdapter for EventLogAdapter<EL> {
     ) -> RuntimeResult<()> {
         let expected_checksum = u64::from_le_bytes(file.read_block()?);
         let plen = u64::from_le_bytes(file.read_block()?);
+        if !file.has_left(plen) {
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
         let mut pl = vec![0; plen as usize];
         file.tracked_read(&mut pl)?;
         let mut this_checksum = SCrc64::new();
-- 
2.43.0


From 534ba1d0aaf087fe1534545ee3859dd455141b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 19/36] fix: resume a short write after the bytes already
 written

fwrite_all_count passed the whole buffer again after a short write: the file
received the beginning of the data a second time and the reported count could
run past the end of the buffer.
---
 server/src/engine/storage/common/interface/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common/interface/fs.rs b/server/src/engine/storage/common/interface/fs.rs
index 5855182..629191c 100644
--- a/server/src/engine/storage/common/interface/fs.rs
+++ b/server/src/engine/storage/common/interface/fs.rs
@@ -156,7 +156,7 @@ pub trait FileWrite {
         let len = buf.len() as u64;
         let mut written = 0;
         while written != len {
-            match self.fwrite(buf) {
+            match self.fwrite(&buf[written as usize..]) {
                 Ok(0) => {
                     return (
                         written,
-- 
2.43.0


From 4085b395957ff6a5d09dc80e78827d5b1421c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 20/36] fix: do not count flushed buffer bytes as part of a
 failed block

When a tracked write failed after (part of) the buffer was flushed, the number
of flushed bytes was used to slice the block that was being written, which
panics for any shorter block and otherwise corrupts the checksum.
---
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 11e4410..f606a9b 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -461,6 +461,8 @@ impl<
     /// will be updated in the checksum. If disabled, then the checksum is unchanged.
     pub fn tracked_write(&mut self, buf: &[u8]) -> IoResult<()> {
         let cursor_start = self.cursor_usize();
+        // these are already a part of the checksum, but will be flushed before anything from this block
+        let buffered = self.buf.len();
         match self.untracked_write(buf) {
             Ok(()) => {
                 self.t_checksum.update(buf);
@@ -469,7 +471,8 @@ impl<
             Err(e) => {
                 if CHECKSUM_WRITTEN_IF_BLOCK_ERROR {
                     let cursor_now = self.cursor_usize();
-                    self.t_checksum.update(&buf[..cursor_now - cursor_start]);
+                    self.t_checksum
+                        .update(&buf[..(cursor_now - cursor_start).saturating_sub(buffered)]);
                 }
                 Err(e)
             }
-- 
2.43.0


From 4abdbb4aabbeda30d7d9e65a9bd40320a367b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:40 +0000
Subject: [PATCH 21/36] fix: a failed journal transaction must not affect the
 following ones

After a commit failed without anything reaching the file, its bytes stayed in
the checksums (and, until a heartbeat, in the buffer) and its transaction id
stayed used, so whatever was committed or closed afterwards could not be read
back: the journal was unreadable after the next restart. If some bytes did reach
the file, later transactions were appended after the partial event. The first
transaction of a new log could also never be recovered as the heartbeat compared
the cursor with an unset offset. Discard a transaction when it fails, refuse to
append after partial state and do not give up on closing the other drivers.
---
 server/src/engine/fractal/mod.rs              |  9 ++++---
 .../storage/common/sdss/impls/sdss_r1/rw.rs   | 21 +++++++++++++++
 .../engine/storage/v2/raw/journal/raw/mod.rs  | 27 ++++++++++++++-----
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index f153ab7..f3731e0 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -270,10 +270,11 @@ impl Global {
         Self::__gref_raw().assume_init_ref()
     }
     pub unsafe fn unload_all(self) {
-        // TODO(@ohsayan): handle errors
         let GlobalState { gns, .. } = Self::__gref_raw().assume_init_read();
         let mut gns_driver = gns.gns_driver().txn_driver.lock();
-        GNSDriver::close_driver(&mut gns_driver).unwrap();
+        if let Err(e) = GNSDriver::close_driver(&mut gns_driver) {
+            error!("failed to close GNS driver: {e}");
+        }
         for mdl in gns
             .namespace()
             .idx_models()
@@ -281,7 +282,9 @@ impl Global {
             .drain()
             .map(|(_, mdl)| mdl)
         {
-            mdl.into_driver().close().unwrap();
+            if let Err(e) = mdl.into_driver().close() {
+                error!("failed to close model driver: {e}");
+            }
         }
     }
 }
diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index f606a9b..ca3d7f4 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -346,6 +346,24 @@ impl<
     pub fn __zero_buffer(&mut self) {
         self.buf.clear()
     }
+    /// The number of bytes that have been written to the buffer, but not to the file
+    pub fn buffered(&self) -> usize {
+        self.buf.len()
+    }
+    /// Discard everything that was added to the buffer since it had `buffered` bytes and restore the checksum from that
+    /// point in time
+    ///
+    /// NB: only meaningful if nothing was flushed since
+    pub fn __rollback(&mut self, buffered: usize, checksum: SCrc64) {
+        if self.buf.len() > buffered {
+            unsafe {
+                // UNSAFE(@ohsayan): verified length; no dtor needed
+                self.buf.decr_len_by(self.buf.len() - buffered)
+            }
+        }
+        self.t_checksum = checksum;
+        self.t_partial_checksum = SCrc64::new();
+    }
 }
 
 impl<
@@ -411,6 +429,9 @@ impl<
     pub fn current_checksum(&self) -> u64 {
         self.t_checksum.clone().finish()
     }
+    pub fn checksum(&self) -> SCrc64 {
+        self.t_checksum.clone()
+    }
 }
 
 impl<
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 6a53516..8bcbb07 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -475,6 +475,7 @@ pub struct RawJournalWriter<J: RawJournalAdapter> {
     txn_id: u64,
     known_txn_id: u64,
     known_txn_offset: u64, // if offset is 0, txn id is unset
+    known_cursor: u64,     // cursor when the last transaction succeeded
 }
 
 impl<J: RawJournalAdapter + fmt::Debug> fmt::Debug for RawJournalWriter<J>
@@ -488,6 +489,7 @@ where
             .field("txn_id", &self.txn_id)
             .field("known_txn_id", &self.known_txn_id)
             .field("known_txn_offset", &self.known_txn_offset)
+            .field("known_cursor", &self.known_cursor)
             .finish()
     }
 }
@@ -501,6 +503,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
             log_file: TrackedWriter::with_cursor_and_checksum(file, j_.cursor(), j_.checksum()),
             known_txn_id: j_.last_txn_id(),
             known_txn_offset: j_.last_offset(),
+            known_cursor: j_.cursor(),
             txn_id: j_.txn_id(),
             j: J::initialize(&j_),
         };
@@ -566,13 +569,12 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     {
         self.commit_with_ctx(event, Default::default())
     }
-    /// WARNING: ONLY CALL AFTER A FAILURE EVENT. THIS WILL EMPTY THE UNFLUSHED BUFFER
+    /// WARNING: ONLY CALL AFTER A FAILURE EVENT
     pub fn __lwt_heartbeat(&mut self) -> RuntimeResult<()> {
         // verify that the on disk cursor is the same as what we know
         self.log_file.verify_cursor()?;
-        if self.log_file.cursor() == self.known_txn_offset {
-            // great, so if there was something in the buffer, simply ignore it
-            self.log_file.__zero_buffer();
+        if self.log_file.cursor() == self.known_cursor {
+            // great, whatever the failed transaction left in the buffer was discarded when it failed
             Ok(())
         } else {
             // so, the on-disk file probably has some partial state. this is bad. throw an error
@@ -586,12 +588,21 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         &mut self,
         f: impl FnOnce(&mut Self, u128) -> RuntimeResult<T>,
     ) -> RuntimeResult<T> {
+        if self.log_file.cursor() != self.known_cursor {
+            // an earlier transaction failed midway and left partial state on disk; nothing can follow it
+            return Err(StorageError::RawJournalRuntimeCriticalLwtHBFail.into());
+        }
         let id = self.txn_id;
-        self.txn_id += 1;
+        let (buffered, checksum) = (self.log_file.buffered(), self.log_file.checksum());
         let ret = f(self, id as u128);
         if ret.is_ok() {
+            self.txn_id += 1;
             self.known_txn_id = id;
             self.known_txn_offset = self.log_file.cursor();
+            self.known_cursor = self.log_file.cursor();
+        } else if self.log_file.cursor() == self.known_cursor {
+            // nothing reached the file, so this transaction never happened
+            self.log_file.__rollback(buffered, checksum);
         }
         ret
     }
@@ -622,7 +633,11 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     }
     /// Close driver
     pub fn close_driver(me: &mut Self) -> RuntimeResult<()> {
-        Self::_commit_driver_event(me, DriverEventKind::Closed)?;
+        if let Err(e) = Self::_commit_driver_event(me, DriverEventKind::Closed) {
+            // this log will not be written to any more
+            me.log_file.__zero_buffer();
+            return Err(e);
+        }
         jtrace_writer!(DriverClosed);
         Ok(())
     }
-- 
2.43.0


From 61ccad823df81b7e535b83fe7c038b07fc8f6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 22/36] fix: damaged primary key tags in data files are refused

The tag of the primary key in a batch was turned into an enumeration value for
every byte, although only four of them (and a marker for illegal ones) exist: a
damaged tag led to undefined behavior. It is now compared with the tag of the
model (or with the last valid tag for v1 files).
---
 .../src/engine/storage/v1/raw/batch_jrnl/restore.rs   |  4 ++++
 server/src/engine/storage/v2/impls/mdl_journal.rs     | 11 +++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 8f7e8f5..58e10b7 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -462,6 +462,10 @@ impl BatchStartBlock {
 
 impl DataBatchRestoreDriver {
     fn decode_primary_key(&mut self, pk_type: u8) -> RuntimeResult<PrimaryIndexKey> {
+        // NB: there are no tags between the last valid tag and the illegal tag, so don't blindly construct one
+        if pk_type > TagUnique::Str.value_u8() {
+            return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+        }
         let Some(pk_type) = TagUnique::try_from_raw(pk_type) else {
             return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
         };
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 27396ed..fb25ecb 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -440,7 +440,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
         BatchRestoreState { events: Vec::new() }
     }
     fn decode_batch_metadata(
-        _: &Self::GlobalState,
+        gs: &Self::GlobalState,
         f: &mut TrackedReaderContext<Self::Spec>,
         batch_type: Self::BatchType,
     ) -> RuntimeResult<Self::BatchMetadata> {
@@ -448,8 +448,11 @@ impl BatchAdapterSpec for ModelDataAdapter {
         match batch_type {
             BatchType::Standard => {}
         }
-        let pk_tag = TagUnique::try_from_raw(f.read_block().map(|[b]| b)?)
-            .ok_or(StorageError::RawJournalCorrupted)?;
+        // NB: there are no tags between the last valid tag and the illegal tag, so don't blindly construct one
+        let pk_tag = gs.p_tag().tag_unique();
+        if f.read_block().map(|[b]| b)? != pk_tag.value_u8() {
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
         let schema_version = u64::from_le_bytes(f.read_block()?);
         let column_count = u64::from_le_bytes(f.read_block()?);
         Ok(BatchMetadata {
@@ -673,7 +676,7 @@ mod restore_impls {
                 }
             }
             TagUnique::Illegal => unsafe {
-                // UNSAFE(@ohsayan): TagUnique::try_from_raw rejects an construction with Invalid as the dscr
+                // UNSAFE(@ohsayan): this is the tag of the primary key of a model, which is never illegal
                 impossible!()
             },
         })
-- 
2.43.0


From 04b9502c549a89039de9f36e01a34afb0c32eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:53 +0000
Subject: [PATCH 23/36] fix: verify the checksum of a batch before applying it

Batches were applied to the model before their checksum was compared, so a
damaged batch could trip over assertions on data that was never written (and
crash the server on startup) instead of being reported as corrupted.
---
 .../src/engine/storage/v2/raw/journal/mod.rs  | 73 ++++++++-----------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 6e55e75..0d671cf 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -265,53 +265,42 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
         f: &mut TrackedReader<Self::Spec>,
     ) -> RuntimeResult<()> {
         let mut f = f.context();
-        {
-            // get metadata
-            // read batch size
-            let _stored_expected_commit_size = u64::from_le_bytes(f.read_block()?);
-            // read custom metadata
-            let batch_md = <BA as BatchAdapterSpec>::decode_batch_metadata(gs, &mut f, meta)?;
-            // now read in every event
-            let mut real_commit_size = 0;
-            let mut batch_state = <BA as BatchAdapterSpec>::initialize_batch_state(gs);
-            loop {
-                if real_commit_size == _stored_expected_commit_size {
-                    break;
-                }
-                let event_type = <<BA as BatchAdapterSpec>::EventType as TaggedEnum>::try_from_raw(
-                    f.read_block().map(|[b]| b)?,
-                )
-                .ok_or(StorageError::RawJournalCorrupted)?;
-                // is this an early exit marker? if so, exit
-                if <BA as BatchAdapterSpec>::is_early_exit(&event_type) {
-                    break;
-                }
-                // update batch state
-                BA::update_state_for_new_event(
-                    gs,
-                    &mut batch_state,
-                    &mut f,
-                    &batch_md,
-                    event_type,
-                )?;
-                real_commit_size += 1;
+        // get metadata
+        // read batch size
+        let _stored_expected_commit_size = u64::from_le_bytes(f.read_block()?);
+        // read custom metadata
+        let batch_md = <BA as BatchAdapterSpec>::decode_batch_metadata(gs, &mut f, meta)?;
+        // now read in every event
+        let mut real_commit_size = 0;
+        let mut batch_state = <BA as BatchAdapterSpec>::initialize_batch_state(gs);
+        loop {
+            if real_commit_size == _stored_expected_commit_size {
+                break;
             }
-            // read actual commit size
-            let _stored_actual_commit_size = u64::from_le_bytes(f.read_block()?);
-            if _stored_actual_commit_size == real_commit_size {
-                // finish applying batch
-                BA::finish(batch_state, batch_md, gs)?;
-            } else {
-                return Err(StorageError::RawJournalCorrupted.into());
+            let event_type = <<BA as BatchAdapterSpec>::EventType as TaggedEnum>::try_from_raw(
+                f.read_block().map(|[b]| b)?,
+            )
+            .ok_or(StorageError::RawJournalCorrupted)?;
+            // is this an early exit marker? if so, exit
+            if <BA as BatchAdapterSpec>::is_early_exit(&event_type) {
+                break;
             }
+            // update batch state
+            BA::update_state_for_new_event(gs, &mut batch_state, &mut f, &batch_md, event_type)?;
+            real_commit_size += 1;
         }
-        // and finally, verify checksum
+        // read actual commit size
+        let _stored_actual_commit_size = u64::from_le_bytes(f.read_block()?);
+        if _stored_actual_commit_size != real_commit_size {
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
+        // verify checksum
         let (real_checksum, file) = f.finish();
         let stored_checksum = u64::from_le_bytes(file.read_block()?);
-        if real_checksum == stored_checksum {
-            Ok(())
-        } else {
-            Err(StorageError::RawJournalCorrupted.into())
+        if real_checksum != stored_checksum {
+            return Err(StorageError::RawJournalCorrupted.into());
         }
+        // and finally, apply the batch (only once we know that it is intact)
+        BA::finish(batch_state, batch_md, gs)
     }
 }
-- 
2.43.0


From 6b1e027dfdb352debc82b66d35d76a8739f00ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:55 +0000
Subject: [PATCH 24/36] fix: truncated statements index past the last token and
 panic

---
 server/src/engine/ql/ast/mod.rs | 23 +++++++++++++----------
 server/src/engine/ql/ddl/alt.rs |  3 +++
 server/src/engine/ql/ddl/syn.rs |  6 ++++++
 server/src/engine/ql/dml/ins.rs |  3 +++
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 5446f58..e3dc36c 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -89,11 +89,12 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     pub fn try_entity_buffered_into_state_uninit(&mut self) -> MaybeInit<EntityIDRef<'a>> {
         let mut ret = MaybeInit::uninit();
         let self_has_full = Self::_entity_signature_match_self_full(
-            &self.t[self.cursor()],
-            &self.t[self.cursor() + 1],
-            &self.t[self.cursor() + 2],
+            self.offset_current_r(0),
+            self.offset_current_r(1),
+            self.offset_current_r(2),
         );
-        let self_has_full_cs = self._entity_signature_match_cs(&self.t[self.cursor()]);
+        let self_has_full_cs =
+            self.not_exhausted() && self._entity_signature_match_cs(self.offset_current_r(0));
         unsafe {
             if self_has_full {
                 ret = MaybeInit::new(self._entity_new_from_tokens());
@@ -110,7 +111,8 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
             self.offset_current_r(1),
             self.offset_current_r(2),
         );
-        let self_has_pre_full = self._entity_signature_match_cs(self.offset_current_r(0));
+        let self_has_pre_full =
+            self.not_exhausted() && self._entity_signature_match_cs(self.offset_current_r(0));
         if self_has_full {
             unsafe {
                 // UNSAFE(@ohsayan): +branch condition
@@ -196,7 +198,8 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     #[inline(always)]
     /// Returns a count of the number of consumable tokens remaining
     pub fn remaining(&self) -> usize {
-        self.t.len() - self.i
+        // the cursor may be ahead of the end if errors were ignored
+        self.t.len().saturating_sub(self.i)
     }
     #[inline(always)]
     /// Read and forward the cursor
@@ -255,9 +258,9 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
         (self.t[mx] == tok) & (mx == self.i)
     }
     #[inline(always)]
-    /// Check if the cursor equals the given token
+    /// Check if the cursor equals the given token (false if the token stream is exhausted)
     pub(crate) fn cursor_eq(&self, token: Token) -> bool {
-        self.t[self.i] == token
+        self.t.get(self.i).map_or(false, |t| *t == token)
     }
     #[inline(always)]
     /// Move the cursor back by 1
@@ -304,9 +307,9 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
         self.i
     }
     #[inline(always)]
-    /// Returns true if the cursor is an ident
+    /// Returns true if the cursor is an ident (false if the token stream is exhausted)
     pub(crate) fn cursor_is_ident(&self) -> bool {
-        self.read().is_ident()
+        self.not_exhausted() && self.read().is_ident()
     }
     #[inline(always)]
     fn round_cursor_up(&self, up: usize) -> usize {
diff --git a/server/src/engine/ql/ddl/alt.rs b/server/src/engine/ql/ddl/alt.rs
index b6069a0..0e4b285 100644
--- a/server/src/engine/ql/ddl/alt.rs
+++ b/server/src/engine/ql/ddl/alt.rs
@@ -120,6 +120,9 @@ impl<'a> AlterModel<'a> {
             // FIXME(@ohsayan): bad because no specificity
         }
         let model_name = state.try_entity_ref_result()?;
+        if compiler::unlikely(state.exhausted()) {
+            return compiler::cold_rerr(QueryError::QLUnexpectedEndOfStatement);
+        }
         let kind = match state.fw_read() {
             Token![add] => AlterKind::alter_add(state),
             Token![remove] => AlterKind::alter_remove(state),
diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index 1c1a938..34ffd44 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -378,6 +378,9 @@ impl<'a> FieldSpec<'a> {
         let is_null = state.cursor_eq(Token![null]);
         state.cursor_ahead_if(is_null);
         state.poison_if(is_primary & is_null);
+        if compiler::unlikely(state.remaining() < 2) {
+            return Err(QueryError::QLUnexpectedEndOfStatement);
+        }
         // parse layers
         // field name
         let field_name = match (state.fw_read(), state.fw_read()) {
@@ -440,6 +443,9 @@ impl<'a> ExpandedField<'a> {
             state.poison_if_not(state.cursor_eq(Token![:]));
             state.cursor_ahead();
             rfold_layers(state, &mut layers);
+            if compiler::unlikely(state.exhausted()) {
+                return Err(QueryError::QLUnexpectedEndOfStatement);
+            }
             match state.fw_read() {
                 Token![,] => {
                     rfold_dict(DictFoldState::CB_OR_IDENT, state, &mut props);
diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 9bd4069..467d818 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -355,6 +355,9 @@ impl<'a> InsertStatement<'a> {
 
         // entity
         let entity = state.try_entity_buffered_into_state_uninit();
+        if compiler::unlikely(state.exhausted()) {
+            return compiler::cold_rerr(QueryError::QLUnexpectedEndOfStatement);
+        }
         let mut data = None;
         match state.fw_read() {
             Token![() open] if state.not_exhausted() => {
-- 
2.43.0


From 0f336d2234118fcb82870d1b065418e0af6b9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:55 +0000
Subject: [PATCH 25/36] fix: the limit of select all is read as a literal
 without checking that it is one

---
 server/src/engine/ql/dml/sel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/ql/dml/sel.rs b/server/src/engine/ql/dml/sel.rs
index e379db2..a4bb5d6 100644
--- a/server/src/engine/ql/dml/sel.rs
+++ b/server/src/engine/ql/dml/sel.rs
@@ -208,7 +208,7 @@ impl<'a> SelectAllStatement<'a> {
         let entity = state.try_entity_buffered_into_state_uninit();
         state.poison_if_not(state.cursor_rounded_eq(Token![limit]));
         state.cursor_ahead_if(state.okay()); // we did read limit
-        state.poison_if(state.exhausted()); // we MUST have the limit
+        state.poison_if_not(state.can_read_lit_rounded()); // we MUST have the limit
         if state.okay() {
             let lit = unsafe { state.fw_read().uck_read_lit() };
             match lit.try_uint() {
-- 
2.43.0


From cf7cc6edd93b5e3a567fd859eea7e2f514861d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:59 +0000
Subject: [PATCH 26/36] fix: deeply nested statements overflow the stack

---
 server/src/engine/ql/ast/mod.rs | 16 ++++++++++++++++
 server/src/engine/ql/ddl/syn.rs |  8 ++++++++
 server/src/engine/ql/dml/ins.rs |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index e3dc36c..dace9dc 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -50,6 +50,7 @@ pub struct State<'a, Qd> {
     d: Qd,
     i: usize,
     f: bool,
+    depth: usize,
     cs: Option<&'static str>,
 }
 
@@ -141,6 +142,7 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
         Self {
             i: 0,
             f: true,
+            depth: 0,
             t,
             d,
             cs: None,
@@ -166,6 +168,20 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     pub fn poison_if_not(&mut self, fuse: bool) {
         self.poison_if(!fuse);
     }
+    /// The maximum depth of nested expressions (lists, dictionaries and types). Expressions are parsed (and later
+    /// processed) recursively; hence the depth must be bounded
+    const MAX_DEPTH: usize = 128;
+    /// Enter a nested expression. The state is poisoned if the expression is nested too deep, in which case the nested
+    /// expression must not be parsed
+    pub fn enter_nested(&mut self) -> bool {
+        self.depth += 1;
+        self.poison_if(self.depth > Self::MAX_DEPTH);
+        self.okay()
+    }
+    /// Leave a nested expression
+    pub fn leave_nested(&mut self) {
+        self.depth -= 1;
+    }
     #[inline(always)]
     /// Move the cursor ahead by 1
     pub fn cursor_ahead(&mut self) {
diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index 34ffd44..eec1dfa 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -189,7 +189,11 @@ where
             (Token![open {}], DictFoldState::LIT_OR_OB) => {
                 // found a nested dict
                 let mut ndict = DictGeneric::new();
+                if !state.enter_nested() {
+                    break;
+                }
                 _rfold_dict::<Qd, NoBreakpoint>(DictFoldState::CB_OR_IDENT, state, &mut ndict);
+                state.leave_nested();
                 state.poison_if_not(
                     dict.insert(
                         unsafe {
@@ -291,7 +295,11 @@ fn rfold_layers<'a, Qd: QueryData<'a>>(state: &mut State<'a, Qd>, layers: &mut V
                     // but we first need a colon
                     state.poison_if_not(state.cursor_rounded_eq(Token![:]));
                     state.cursor_ahead_if(state.okay());
+                    if !state.enter_nested() {
+                        break;
+                    }
                     rfold_layers(state, layers);
+                    state.leave_nested();
                     // we are yet to parse the remaining props
                     mstate = LayerFoldState::FOLD_INCOMPLETE;
                 } else {
diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 467d818..bc21633 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -143,7 +143,11 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
             Token![open []] => {
                 // a nested list
                 let mut nested_list = Vec::new();
+                if !state.enter_nested() {
+                    break;
+                }
                 let nlist_dscr = parse_list(state, &mut nested_list);
+                state.leave_nested();
                 // check type return
                 state.poison_if_not(
                     prev_nlist_dscr.is_none()
-- 
2.43.0


From fd92478ae508acc3c65b78965f80d89c201df873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:49 +0000
Subject: [PATCH 27/36] fix: nested properties added to a space are lost

---
 server/src/engine/data/dict.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index fe79c9b..14b065d 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -124,6 +124,7 @@ pub fn rmerge_data_with_patch(current: &mut DictGeneric, patch: DictGeneric) {
                 None => {
                     let mut new = DictGeneric::new();
                     rmerge_data_with_patch(&mut new, m);
+                    current.st_insert(key, DictEntryGeneric::Map(new));
                 }
             },
         }
-- 
2.43.0


From b825740175aba6a24d9c00075627836a561cdb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:49 +0000
Subject: [PATCH 28/36] fix: replacing a property dictionary with a value
 removes it

---
 server/src/engine/data/dict.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index 14b065d..b033f6b 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -154,6 +154,11 @@ fn rmerge_metadata_prepare_patch(
             (Some(DictEntryGeneric::Data(_)), DictEntryGeneric::Map(_)) => {
                 okay = false;
             }
+            (Some(DictEntryGeneric::Map(_)), DictEntryGeneric::Data(new_data))
+                if new_data.is_init() =>
+            {
+                okay = false;
+            }
             (
                 Some(DictEntryGeneric::Map(this_recursive_data)),
                 DictEntryGeneric::Map(new_recursive_data),
-- 
2.43.0


From 1651bf321df68a741b2edfdfc2737c676313be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:48 +0000
Subject: [PATCH 29/36] fix: a forced drop removes the space even if it could
 not be committed

---
 server/src/engine/core/space.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index 30c3174..02201a8 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -245,7 +245,7 @@ impl Space {
                 .state()
                 .namespace()
                 .ddl_with_all_mut(|spaces, models| {
-                    let Some(space) = spaces.remove(space_name.as_str()) else {
+                    let Some(space) = spaces.get(space_name.as_str()) else {
                         if if_exists {
                             return Ok(Some(false));
                         } else {
@@ -255,7 +255,7 @@ impl Space {
                     // commit drop
                     // prepare txn
                     let txn =
-                        txn::gns::space::DropSpaceTxn::new(SpaceIDRef::new(&space_name, &space));
+                        txn::gns::space::DropSpaceTxn::new(SpaceIDRef::new(&space_name, space));
                     // commit txn
                     global.state().gns_driver().driver_context(
                         global,
@@ -266,10 +266,10 @@ impl Space {
                     global.taskmgr_post_standard_priority(Task::new(
                         GenericTask::delete_space_dir(&space_name, space.get_uuid()),
                     ));
-                    for model in space.models.into_iter() {
+                    for model in space.models.iter() {
                         let e: EntityIDRef<'static> = unsafe {
                             // UNSAFE(@ohsayan): I want to try what the borrow checker has been trying
-                            core::mem::transmute(EntityIDRef::new(space_name.as_str(), &model))
+                            core::mem::transmute(EntityIDRef::new(space_name.as_str(), model))
                         };
                         let mdl = models.st_delete_return(&e).unwrap();
                         // no need to purge model drive since the dir itself is deleted. our work here is to just
-- 
2.43.0


From 1643f77f51f45ad34d8cde52bc3e598b3abdcd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:48 +0000
Subject: [PATCH 30/36] fix: restoring the removal of all properties of a space
 leaves it without the env dictionary

---
 server/src/engine/core/space.rs                             | 2 +-
 .../engine/storage/common_encoding/r1/impls/gns/space.rs    | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index 02201a8..b4986f0 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -98,7 +98,7 @@ impl Space {
 }
 
 impl Space {
-    const KEY_ENV: &'static str = "env";
+    pub(in crate::engine) const KEY_ENV: &'static str = "env";
     #[inline]
     /// Validate a `create` stmt
     fn process_create(
diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs
index 3fe8949..defd234 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs
@@ -29,7 +29,7 @@ use {
     crate::{
         engine::{
             core::{space::Space, EntityIDRef, GNSData},
-            data::DictGeneric,
+            data::{DictEntryGeneric, DictGeneric},
             error::{RuntimeResult, TransactionError},
             idx::STIndex,
             mem::BufferedScanner,
@@ -188,6 +188,10 @@ impl<'a> GNSEvent for AlterSpaceTxn<'a> {
                 if !crate::engine::data::dict::rmerge_metadata(space.props_mut(), space_meta) {
                     return Err(TransactionError::OnRestoreDataConflictMismatch.into());
                 }
+                // just like when the alteration was executed, put the `env` key back if it was removed
+                let _ = space
+                    .props_mut()
+                    .st_insert(Space::KEY_ENV.into(), DictEntryGeneric::Map(into_dict!()));
             }
             None => return Err(TransactionError::OnRestoreDataMissing.into()),
         }
-- 
2.43.0


From e4e18482c72a4477bcbee017c99536715e4b5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 31/36] fix: owned iterators of the ordered index read freed
 nodes and leak the sentinel

---
 server/src/engine/idx/stord/iter.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/server/src/engine/idx/stord/iter.rs b/server/src/engine/idx/stord/iter.rs
index c70d585..3c8b093 100644
--- a/server/src/engine/idx/stord/iter.rs
+++ b/server/src/engine/idx/stord/iter.rs
@@ -275,6 +275,7 @@ impl<K: AsKey, V: AsValue> OrderedOwnedIteratorRaw<K, V> {
     pub(super) fn new<Mc: Config<K, V>>(mut idx: IndexSTSeqDll<K, V, Mc>) -> Self {
         // clean up if needed
         idx.vacuum_full();
+        let len = idx.len();
         let mut idx = ManuallyDrop::new(idx);
         // chuck the map
         drop(unsafe { ptr::read((&mut idx.m) as *mut _) });
@@ -287,7 +288,7 @@ impl<K: AsKey, V: AsValue> OrderedOwnedIteratorRaw<K, V> {
                     (*idx.h).p
                 },
                 t: idx.h,
-                r: idx.len(),
+                r: len,
             }
         }
     }
@@ -305,7 +306,7 @@ impl<K, V> OrderedOwnedIteratorRaw<K, V> {
                 let this = ptr::read(self.h);
                 // destroy this node
                 IndexSTSeqDllNode::dealloc_headless(self.h);
-                self.h = (*self.h).p;
+                self.h = this.p;
                 Some((this.k, this.v))
             }
         }
@@ -318,9 +319,17 @@ impl<K, V> OrderedOwnedIteratorRaw<K, V> {
             self.r -= 1;
             unsafe {
                 // UNSAFE(@ohsayan): +nullck
-                self.t = (*self.t).n;
-                let this = ptr::read(self.t);
-                IndexSTSeqDllNode::dealloc_headless(self.t);
+                let node = (*self.t).n;
+                let this = ptr::read(node);
+                if node == self.h {
+                    // this was the last node
+                    self.h = self.t;
+                } else {
+                    // unlink this node
+                    (*self.t).n = this.n;
+                    (*this.n).p = self.t;
+                }
+                IndexSTSeqDllNode::dealloc_headless(node);
                 Some((this.k, this.v))
             }
         }
@@ -331,6 +340,12 @@ impl<K, V> Drop for OrderedOwnedIteratorRaw<K, V> {
     fn drop(&mut self) {
         // clean up what's left
         while let Some(_) = self._next() {}
+        if !self.t.is_null() {
+            unsafe {
+                // UNSAFE(@ohsayan): nullck; all nodes are gone, only the sentinel is left
+                IndexSTSeqDllNode::dealloc_headless(self.t);
+            }
+        }
     }
 }
 
-- 
2.43.0


From d388a9b2ce36c9d0f56f14d99b212c63013309b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 32/36] fix: comparing ordered indexes with different keys
 panics

---
 server/src/engine/idx/stord/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/idx/stord/mod.rs b/server/src/engine/idx/stord/mod.rs
index 11a3120..4ab8585 100644
--- a/server/src/engine/idx/stord/mod.rs
+++ b/server/src/engine/idx/stord/mod.rs
@@ -811,7 +811,7 @@ impl<K: AsKey, V: AsValue + PartialEq, C: Config<K, V>> PartialEq for IndexSTSeq
         self.len() == other.len()
             && self
                 ._iter_ord_kv()
-                .all(|(k, v)| other._get(k).unwrap().eq(v))
+                .all(|(k, v)| other._get(k).map_or(false, |other_v| other_v.eq(v)))
     }
 }
 
-- 
2.43.0


From 0acfdf62dd26b3b6459693407fddd1b497b13e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 33/36] fix: dropping a fixed vector leaks its block

---
 server/src/engine/mem/fixed_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/mem/fixed_vec.rs b/server/src/engine/mem/fixed_vec.rs
index c6baa8c..2f1784d 100644
--- a/server/src/engine/mem/fixed_vec.rs
+++ b/server/src/engine/mem/fixed_vec.rs
@@ -135,7 +135,7 @@ impl<T, const CAP: usize> Drop for FixedVec<T, CAP> {
         self.clear();
         unsafe {
             // UNSAFE(@ohsayan): dealloc
-            unsafe_apis::dealloc_array(self.p.as_ptr(), self.len());
+            unsafe_apis::dealloc_array(self.p.as_ptr(), CAP);
         }
     }
 }
-- 
2.43.0


From ccc14ce16cca5dff663e374ac03fec43a0a4c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 34/36] fix: iterating an inline vector by value reads the
 elements as options

---
 server/src/engine/mem/vinline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/mem/vinline.rs b/server/src/engine/mem/vinline.rs
index dccb06e..4e09717 100644
--- a/server/src/engine/mem/vinline.rs
+++ b/server/src/engine/mem/vinline.rs
@@ -331,7 +331,7 @@ impl<const N: usize, T> IntoIter<N, T> {
             let current = self.i;
             self.i += 1;
             // UNSAFE(@ohsayan): i < l; so in all cases we are behind EOA
-            ptr::read(self.v._as_ptr().add(current).cast())
+            Some(ptr::read(self.v._as_ptr().add(current)))
         }
     }
     #[inline(always)]
@@ -342,7 +342,7 @@ impl<const N: usize, T> IntoIter<N, T> {
         unsafe {
             // UNSAFE(@ohsayan): we get the back pointer and move back; always behind EOA so we're chill
             self.l -= 1;
-            ptr::read(self.v._as_ptr().add(self.l).cast())
+            Some(ptr::read(self.v._as_ptr().add(self.l)))
         }
     }
 }
-- 
2.43.0


From f1c22d07498551b959486449e5ffffe4b58560b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 35/36] fix: exact size iterators of the inline containers
 report no size

---
 server/src/engine/mem/uarray.rs  | 4 ++++
 server/src/engine/mem/vinline.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/server/src/engine/mem/uarray.rs b/server/src/engine/mem/uarray.rs
index 83f00a5..f375362 100644
--- a/server/src/engine/mem/uarray.rs
+++ b/server/src/engine/mem/uarray.rs
@@ -276,6 +276,10 @@ impl<const N: usize, T> Iterator for IntoIter<N, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self._next()
     }
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.l - self.i;
+        (remaining, Some(remaining))
+    }
 }
 impl<const N: usize, T> ExactSizeIterator for IntoIter<N, T> {}
 impl<const N: usize, T> FusedIterator for IntoIter<N, T> {}
diff --git a/server/src/engine/mem/vinline.rs b/server/src/engine/mem/vinline.rs
index 4e09717..b817d2b 100644
--- a/server/src/engine/mem/vinline.rs
+++ b/server/src/engine/mem/vinline.rs
@@ -364,6 +364,10 @@ impl<const N: usize, T> Iterator for IntoIter<N, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self._next()
     }
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.l - self.i;
+        (remaining, Some(remaining))
+    }
 }
 impl<const N: usize, T> ExactSizeIterator for IntoIter<N, T> {}
 impl<const N: usize, T> FusedIterator for IntoIter<N, T> {}
-- 
2.43.0


From 9e2d168cc251d849b918b6e4bbbcf90ec4fdc4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:06 +0000
Subject: [PATCH 36/36] fix: a root password with a NUL character in the
 configuration file crashes the server

---
 server/src/engine/config.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 9c1e8ee..53cfbfd 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -963,6 +963,11 @@ fn validate_configuration<CS: ConfigurationSource>(
             CS::SOURCE,
             ConfigErrorKind::ErrorString("the root password must have at least 16 characters".into()),
         ).into(),
+        if config.auth.root_key.contains('\0') => ConfigError::with_src(
+            CS::SOURCE,
+            // such a password cannot be hashed
+            ConfigErrorKind::ErrorString("the root password must not contain a NUL character".into()),
+        ).into(),
     );
     Ok(config)
 }
-- 
2.43.0

