//! What surrounds an actor: the runtime that calls it, and its replicas.
pub use prost::{bytes::Bytes, Message};
pub use std::cell::Cell;
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::rc::Rc;
pub use sym::*;
pub use tcp_runtime::model::*;

pub fn logger() -> slog::Logger {
    slog::Logger::root(slog::Discard, slog::o!())
}

/// The part of the context that changes over time.
pub struct Env {
    pub leader: Cell<bool>,
    pub instant: Cell<u64>,
}

pub struct Context {
    pub logger: slog::Logger,
    pub config: Bytes,
    pub env: Rc<Env>,
}

impl ActorContext for Context {
    fn logger(&self) -> &slog::Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        self.env.instant.get()
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        self.env.leader.get()
    }
}

/// One replica: an actor and its environment.
pub struct Replica<A: Actor> {
    pub actor: A,
    pub env: Rc<Env>,
}

impl<A: Actor> Replica<A> {
    pub fn start(actor: A, config: Vec<u8>, leader: bool) -> Replica<A> {
        let env = Rc::new(Env { leader: Cell::new(leader), instant: Cell::new(0) });
        let mut r = Replica { actor, env: env.clone() };
        let ok = r.actor.on_init(Box::new(Context { logger: logger(), config: config.into(), env })).is_ok();
        check(ok, "actor starts");
        r
    }
    pub fn process(&mut self, c: ActorCommand) -> CommandOutcome {
        match self.actor.on_process_command(Some(c)) {
            Ok(o) => o,
            Err(_) => {
                check(false, "a command never brings the actor down");
                CommandOutcome::with_none()
            }
        }
    }
    pub fn apply(&mut self, index: u64, owned: bool, e: &ActorEvent) -> Vec<ActorCommand> {
        match self.actor.on_apply_event(ActorEventContext { index, owned }, e.clone()) {
            Ok(o) => o.commands,
            Err(_) => {
                check(false, "an accepted event never brings the actor down");
                vec![]
            }
        }
    }
    pub fn save(&mut self) -> Bytes {
        match self.actor.on_save_snapshot() {
            Ok(b) => b,
            Err(_) => {
                check(false, "saving a snapshot works");
                Bytes::new()
            }
        }
    }
    pub fn load(&mut self, b: Bytes) {
        check(self.actor.on_load_snapshot(b).is_ok(), "loading a snapshot works");
    }
}
