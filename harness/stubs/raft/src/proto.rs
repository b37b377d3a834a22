//! raft-proto, generated with prost-build, with the accessors raft-rs uses.
mod confchange;
mod confstate;

pub use confchange::{new_conf_change_single, parse_conf_change, stringify_conf_change, ConfChangeI};
pub use confstate::conf_state_eq;

pub mod eraftpb {
    include!(concat!(env!("OUT_DIR"), "/eraftpb.rs"));

    macro_rules! plain {
        ($m:ty { $($f:ident $get:ident $set:ident $mut:ident $take:ident: $t:ty),* $(,)? }) => {
            impl $m {
                $(pub fn $get(&self) -> &[<$t as IntoIterator>::Item] { &self.$f }
                pub fn $set(&mut self, v: $t) { self.$f = v; }
                pub fn $mut(&mut self) -> &mut $t { &mut self.$f }
                pub fn $take(&mut self) -> $t { core::mem::take(&mut self.$f) })*
            }
        };
    }
    macro_rules! copy {
        ($m:ty { $($f:ident $get:ident $set:ident: $t:ty),* $(,)? }) => {
            impl $m {
                $(pub fn $get(&self) -> $t { self.$f }
                pub fn $set(&mut self, v: $t) { self.$f = v; })*
            }
        };
    }
    macro_rules! enums {
        ($m:ty { $($f:ident $get:ident: $t:ty),* $(,)? }) => {
            impl $m {
                // prost generates the setters.
                $(pub fn $get(&self) -> $t { self.$f() })*
            }
        };
    }
    macro_rules! msg {
        ($m:ty { $($f:ident $has:ident $get:ident $set:ident $mut:ident $take:ident: $t:ident $d:ident),* $(,)? }) => {
            $(static $d: $t = $t::DEFAULT;)*
            impl $m {
                $(pub fn $has(&self) -> bool { self.$f.is_some() }
                pub fn $get(&self) -> &$t { self.$f.as_ref().unwrap_or(&$d) }
                pub fn $set(&mut self, v: $t) { self.$f = Some(v); }
                pub fn $mut(&mut self) -> &mut $t { self.$f.get_or_insert_with(Default::default) }
                pub fn $take(&mut self) -> $t { self.$f.take().unwrap_or_default() })*
            }
        };
    }
    impl ConfState {
        const DEFAULT: ConfState = ConfState {
            voters: Vec::new(),
            learners: Vec::new(),
            voters_outgoing: Vec::new(),
            learners_next: Vec::new(),
            auto_leave: false,
        };
    }
    impl SnapshotMetadata {
        const DEFAULT: SnapshotMetadata = SnapshotMetadata { conf_state: None, index: 0, term: 0 };
    }
    impl Snapshot {
        const DEFAULT: Snapshot = Snapshot { data: Vec::new(), metadata: None };

        /// For a given snapshot, determine if it's empty or not.
        pub fn is_empty(&self) -> bool {
            self.get_metadata().index == 0
        }
    }

    plain!(Entry { data get_data set_data mut_data take_data: Vec<u8>, context get_context set_context mut_context take_context: Vec<u8> });
    copy!(Entry { term get_term set_term: u64, index get_index set_index: u64 });
    enums!(Entry { entry_type get_entry_type: EntryType });
    copy!(SnapshotMetadata { term get_term set_term: u64, index get_index set_index: u64 });
    msg!(SnapshotMetadata { conf_state has_conf_state get_conf_state set_conf_state mut_conf_state take_conf_state: ConfState CONF_STATE });
    plain!(Snapshot { data get_data set_data mut_data take_data: Vec<u8> });
    msg!(Snapshot { metadata has_metadata get_metadata set_metadata mut_metadata take_metadata: SnapshotMetadata METADATA });
    plain!(Message { entries get_entries set_entries mut_entries take_entries: Vec<Entry>, context get_context set_context mut_context take_context: Vec<u8> });
    msg!(Message { snapshot has_snapshot get_snapshot set_snapshot mut_snapshot take_snapshot: Snapshot SNAPSHOT });
    enums!(Message { msg_type get_msg_type: MessageType });
    copy!(Message { to get_to set_to: u64, from get_from set_from: u64, term get_term set_term: u64, index get_index set_index: u64, commit get_commit set_commit: u64, priority get_priority set_priority: i64 });
    copy!(HardState { term get_term set_term: u64, vote get_vote set_vote: u64, commit get_commit set_commit: u64 });
    plain!(ConfState {
        voters get_voters set_voters mut_voters take_voters: Vec<u64>,
        learners get_learners set_learners mut_learners take_learners: Vec<u64>,
        voters_outgoing get_voters_outgoing set_voters_outgoing mut_voters_outgoing take_voters_outgoing: Vec<u64>,
        learners_next get_learners_next set_learners_next mut_learners_next take_learners_next: Vec<u64>,
    });
    plain!(ConfChange { context get_context set_context mut_context take_context: Vec<u8> });
    enums!(ConfChange { change_type get_change_type: ConfChangeType });
    enums!(ConfChangeSingle { change_type get_change_type: ConfChangeType });
    plain!(ConfChangeV2 { changes get_changes set_changes mut_changes take_changes: Vec<ConfChangeSingle>, context get_context set_context mut_context take_context: Vec<u8> });
    enums!(ConfChangeV2 { transition get_transition: ConfChangeTransition });

    impl<V: Into<Vec<u64>>, L: Into<Vec<u64>>> From<(V, L)> for ConfState {
        fn from((v, l): (V, L)) -> Self {
            ConfState { voters: v.into(), learners: l.into(), ..Default::default() }
        }
    }
}

pub mod prelude {
    pub use super::eraftpb::{
        ConfChange, ConfChangeSingle, ConfChangeTransition, ConfChangeType, ConfChangeV2, ConfState,
        Entry, EntryType, HardState, Message, MessageType, Snapshot, SnapshotMetadata,
    };
}
