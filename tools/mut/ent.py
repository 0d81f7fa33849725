D="crates/common/src/direct_access/"
FT=D+"frame/frame_table.rs"; FR=D+"frame/frame_repository.rs"; BT=D+"block/block_table.rs"; DR=D+"document/document_repository.rs"
TR=D+"table/table_repository.rs"; LT=D+"list/list_table.rs"; RS="crates/common/src/database/rope_store.rs"
CASC="        repository_factory::write::create_block_repository(self.transaction)?\n            .remove_multi(event_buffer, &blocks_ids)?;\n"
OWN="""        let affected_owner_ids: Vec<EntityId> = {
            let owner_repo =
                repository_factory::write::create_document_repository(self.transaction)?;
            owner_repo
                .get_relationships_from_right_ids(&DocumentRelationshipField::Frames, &[*id])?
                .into_iter()
                .map(|(owner_id, _)| owner_id)
                .collect()
        };
"""
M=[
("t-noclear-cell",[(FT,"                        updated.cell_frame = None;\n","")],{"C24":1}),
("t-noinsert",[(FT,"            for (cid, c) in updates {\n                cell_map.insert(cid, c);\n            }\n","            let _ = (updates, &mut cell_map);\n")],{"C24":1}),
("t-skip-if-one",[(FT,"        // 3. TableCells whose","        if ids.len() == 1 {\n            return Ok(());\n        }\n        // 3. TableCells whose")],{"C24":1}),
("t-images",[(BT,"                images.remove(id);\n","                let _ = (id, &mut images);\n")],{"C24":1}),
("t-polarity",[(LT,"updated.lists.retain(|lid| !removed.contains(lid));","updated.lists.retain(|lid| removed.contains(lid));")],{"C24":1}),
("r-casc",[(FR,CASC,"        let _ = &blocks_ids;\n")],{"C24":1}),
("r-casc-cond",[(FR,CASC,"        if blocks_ids.len() > 1 {\n"+CASC+"        }\n")],{"C24":1}),
("r-casc-wrong",[(DR,"        repository_factory::write::create_table_repository(self.transaction)?\n            .remove_multi(event_buffer, &tables)?;","        repository_factory::write::create_table_repository(self.transaction)?\n            .remove_multi(event_buffer, &lists)?;")],{"C24":1}),
("r-owner-late",[(FR,OWN,""),(FR,"        // remove entity\n        self.table.remove(id)?;\n","        // remove entity\n        self.table.remove(id)?;\n"+OWN),(FR,"        for owner_id in &affected_owner_ids {\n            owner_rel_before.insert(*owner_id, self.get_relationships_from_owner(owner_id)?);\n        }\n\n        // remove entity\n","        // remove entity\n")],{"C24":1}),
("r-create-noold",[(FR,"        let mut relationship_ids = self.get_relationships_from_owner(&owner_id)?;\n        // Insert at index","        let mut relationship_ids: Vec<EntityId> = Vec::new();\n        // Insert at index")],{"C24":1}),
("n-casc-if",[(FR,CASC,"        if !blocks_ids.is_empty() {\n"+CASC+"        }\n")],{"C24":0,"C39":0}),
("n-casc-loop",[(FR,CASC,"        for b in &blocks_ids {\n            repository_factory::write::create_block_repository(self.transaction)?.remove(event_buffer, b)?;\n        }\n")],{"C24":0}),
("n-casc-helper",[(FR,CASC,"        self.drop_blocks(event_buffer, &blocks_ids)?;\n"),(FR,"    pub fn create_orphan(\n","    fn drop_blocks(&mut self, event_buffer: &mut EventBuffer, bs: &[EntityId]) -> Result<(), RepositoryError> {\n        let mut r = repository_factory::write::create_block_repository(self.transaction)?;\n        r.remove_multi(event_buffer, bs)\n    }\n\n    pub fn create_orphan(\n")],{"C24":0}),
("n-t-helper",[(FT,"                        updated.cell_frame = None;\n                        (*cid, updated)","                        (*cid, detach(updated))"),(FT,"                        let mut updated = c.clone();\n                        (*cid, detach","                        let updated = c.clone();\n                        (*cid, detach"),(FT,"fn read_field(","fn detach(mut c: crate::entities::TableCell) -> crate::entities::TableCell {\n    c.cell_frame = None;\n    c\n}\n\nfn read_field(")],{"C24":0}),
("n-t-getmut",[(FT,"            for (cid, c) in updates {\n                cell_map.insert(cid, c);\n            }\n","            updates.into_iter().for_each(|(cid, c)| {\n                cell_map.insert(cid, c);\n            });\n")],{"C24":0}),
# C25
("id-dup",[(FT,"                if frame_map.contains_key(&entity.id) {","                if entity.id > 1_000_000 && frame_map.contains_key(&entity.id) {")],{"C25":1}),
("id-key",[(FT,'next_id("frame")','next_id("block")')],{"C25":1}),
("id-read",[(RS,"        let id = *counter;\n        *counter += 1;\n        id","        let id = *counter;\n        id")],{"C25":1}),
("id-undo",[(RS,"        self.restore_without_counters(s);","        self.restore(s);")],{"C25":1}),
("id-maxlen",[(FT,'                let id = self.store.next_id("frame");','                let _ = self.store.next_id("frame");\n                let id = frame_map.len() as u64 + 1;')],{"C25":1}),
("id-restored",[(RS,"        // counters intentionally not restored","        *self.counters.write().unwrap() = snap.counters.clone();")],{"C25":1,"C01":1}),
("n-id-helper",[(RS,"        let id = *counter;\n        *counter += 1;\n        id","        let current = *counter;\n        *counter = current + 1;\n        current")],{"C25":0}),
("n-id-match",[(FT,"                if frame_map.contains_key(&entity.id) {","                if frame_map.get(&entity.id).is_some() {")],{"C25":0}),
# C39
("ev-miss",[(FR,"        let updated = self.table.update_multi(entities)?;\n        event_buffer.push(Event {\n            origin: Origin::DirectAccess(DirectAccessEntity::Frame(EntityEvent::Updated)),","        let updated = self.table.update_multi(entities)?;\n        event_buffer.push(Event {\n            origin: Origin::DirectAccess(DirectAccessEntity::Frame(EntityEvent::Created)),")],{"C39":1}),
("ev-ent",[(TR,"DirectAccessEntity::Table(EntityEvent::Removed)","DirectAccessEntity::Frame(EntityEvent::Removed)")],{"C39":1}),
("ev-first",[(FR,"        let new = self.table.create(entity)?;\n        event_buffer.push(Event {\n            origin: Origin::DirectAccess(DirectAccessEntity::Frame(EntityEvent::Created)),\n            ids: vec![new.id],\n            data: None,\n        });\n        Ok(new)","        event_buffer.push(Event {\n            origin: Origin::DirectAccess(DirectAccessEntity::Frame(EntityEvent::Created)),\n            ids: vec![entity.id],\n            data: None,\n        });\n        let new = self.table.create(entity)?;\n        Ok(new)")],{"C39":1}),
("ev-cond",[(FR,"        let updated = self.table.update_multi(entities)?;\n        event_buffer.push(","        let updated = self.table.update_multi(entities)?;\n        if updated.len() > 64 {\n            return Ok(updated);\n        }\n        event_buffer.push(")],{"C39":1}),
("ev-noids",[(FR,"            ids: new_entities.iter().map(|e| e.id).collect(),","            ids: vec![],")],{"C39":1}),
("n-ev-helper",[(FR,"        event_buffer.push(Event {\n            origin: Origin::DirectAccess(DirectAccessEntity::Frame(EntityEvent::Created)),\n            ids: vec![new.id],\n            data: None,\n        });\n        Ok(new)","        announce(event_buffer, EntityEvent::Created, vec![new.id]);\n        Ok(new)"),(FR,"pub struct FrameRepository<","fn announce(b: &mut EventBuffer, k: EntityEvent, ids: Vec<EntityId>) {\n    b.push(Event { origin: Origin::DirectAccess(DirectAccessEntity::Frame(k)), ids, data: None });\n}\n\npub struct FrameRepository<")],{"C39":0}),
("n-ev-map",[(FR,"        let updated = self.table.update(entity)?;\n","        let updated = match self.table.update(entity) {\n            Ok(u) => u,\n            Err(e) => return Err(e),\n        };\n")],{"C39":0}),
]
U="crates/direct_access/src/frame/units_of_work.rs"; MA="crates/macros/src/lib.rs"
M+=[
("uow-swap",[(U,"        Ok(repo.update_with_relationships_multi(&mut event_buffer, entities)?)","        Ok(repo.update_multi(&mut event_buffer, entities)?)")],{"C40":1}),
("uow-n-helper",[(U,"        Ok(repo.update_with_relationships_multi(&mut event_buffer, entities)?)","        let out = repo.update_with_relationships_multi(&mut event_buffer, entities)?;\n        Ok(out)")],{"C40":0}),
("rel-wrongrepo",[(FR,"                FrameRelationshipField::Table => {\n                    let child_repo =\n                        repository_factory::write::create_table_repository(self.transaction)?;","                FrameRelationshipField::Table => {\n                    let child_repo =\n                        repository_factory::write::create_frame_repository(self.transaction)?;")],{"C41":1}),
("rel-nocheck",[(FR,"        if !all_right_ids.is_empty() {\n            match field","        if all_right_ids.len() > 1 {\n            match field")],{"C41":1}),
("rel-ignored",[(FR,"                    if !missing.is_empty() {\n                        return Err(RepositoryError::MissingRelationshipTarget {\n                            operation: \"set_relationship_multi\",\n                            ids: missing,\n                        });\n                    }","                    let _ = missing;")],{"C41":1}),
("n-rel-helper",[(FR,"                FrameRelationshipField::Blocks => {\n                    let child_repo =\n                        repository_factory::write::create_block_repository(self.transaction)?;\n                    let found = child_repo.get_multi(&all_right_ids)?;\n                    let missing: Vec<_> = all_right_ids\n                        .iter()\n                        .zip(found.iter())\n                        .filter(|(_, entity)| entity.is_none())\n                        .map(|(id, _)| *id)\n                        .collect();\n                    if !missing.is_empty() {\n                        return Err(RepositoryError::MissingRelationshipTarget {\n                            operation: \"set_relationship_multi\",\n                            ids: missing,\n                        });\n                    }\n                }","                FrameRelationshipField::Blocks => self.check_blocks(&all_right_ids)?,"),
 (FR,"    pub fn create_orphan(\n","    fn check_blocks(&self, ids: &[EntityId]) -> Result<(), RepositoryError> {\n        let child_repo = repository_factory::write::create_block_repository(self.transaction)?;\n        let mut missing = Vec::new();\n        for id in ids {\n            if child_repo.get(id)?.is_none() {\n                missing.push(*id);\n            }\n        }\n        if missing.is_empty() {\n            Ok(())\n        } else {\n            Err(RepositoryError::MissingRelationshipTarget { operation: \"set_relationship_multi\", ids: missing })\n        }\n    }\n\n    pub fn create_orphan(\n")],{"C41":0}),
("up-noparent",[(FT,"                to_write.parent_frame = existing.parent_frame;\n","")],{"C42":1}),
("up-own",[(FT,"                to_write.parent_frame = existing.parent_frame;\n","                to_write.parent_frame = entity.parent_frame;\n")],{"C42":1}),
("sel-swap",[(FT,"FrameRelationshipField::Table => frame.table = ids.first().copied(),","FrameRelationshipField::Table => frame.parent_frame = ids.first().copied(),")],{"C42":1}),
("n-up-struct",[(FT,"            let mut to_write = entity.clone();\n            if let Some(existing) = frame_map.get(&entity.id) {\n                to_write.parent_frame = existing.parent_frame;\n                to_write.blocks = existing.blocks.clone();\n                to_write.table = existing.table;\n            }\n","            let to_write = match frame_map.get(&entity.id) {\n                Some(existing) => Frame {\n                    parent_frame: existing.parent_frame,\n                    blocks: existing.blocks.clone(),\n                    table: existing.table,\n                    ..entity.clone()\n                },\n                None => entity.clone(),\n            };\n")],{"C42":0}),
]
