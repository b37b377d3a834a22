//! The atomic counter: compare and swap on replicated counters.
use crate::env::*;
use atomic_counter_in_message::Msg as In;
use atomic_counter_out_message::Msg as Out;
use tcp_atomic_counter_service::actor::CounterActor;
use tcp_atomic_counter_service::apps::atomic_counter::service::*;

type Counter = Replica<CounterActor>;

/// 64-bit values of either sign; the length of their encoding stays concrete.
fn any_value(name: &str, kind: u64) -> i64 {
    match kind {
        0 => range(name, 1, 127) as i64,
        1 => range(name, 1 << 63, u64::MAX) as i64,
        _ => range(name, 1 << 56, (1 << 63) - 1) as i64,
    }
}

fn config(values: &[(&str, i64)]) -> Vec<u8> {
    CounterConfig { initial_values: values.iter().map(|(n, v)| (n.to_string(), *v)).collect() }.encode_to_vec()
}

fn snapshot(r: &mut Counter) -> BTreeMap<String, (i64, Vec<u8>)> {
    match CounterSnapshot::decode(r.save()) {
        Ok(s) => s.values.into_iter().map(|(n, v)| (n, (v.value, v.payload.to_vec()))).collect(),
        Err(_) => {
            check(false, "a snapshot can be decoded");
            BTreeMap::new()
        }
    }
}

fn answer(c: &ActorCommand) -> CounterResponse {
    match AtomicCounterOutMessage::decode(c.header.clone()) {
        Ok(AtomicCounterOutMessage { msg: Some(Out::CounterResponse(r)) }) => r,
        _ => {
            check(false, "the answer can be decoded");
            CounterResponse::default()
        }
    }
}

/// case = kind of values * 10 + number of operations.
pub fn operations() {
    let (kind, n) = (case() / 10, case() % 10);
    let initial = any_value("initial", kind);
    let cfg = config(&[("a", initial)]);
    let mut owner: Counter = Replica::start(CounterActor::new(), cfg.clone(), true);
    let mut other: Counter = Replica::start(CounterActor::new(), cfg.clone(), false);
    let mut model: BTreeMap<&str, (i64, Vec<u8>)> = BTreeMap::new();
    model.insert("a", (initial, vec![]));
    for i in 0..n {
        // A configured counter and one that nobody has used yet.
        let name = ["a", "b"][choose("counter", 2)];
        let expected_value = if flip("zero") { 0 } else { any_value("expected", kind) };
        let new_value = match choose("new value", 3) {
            0 => 0,
            1 => expected_value,
            _ => any_value("new", kind),
        };
        let payload = vec![i as u8 + 1; choose("payload", 2) * 2];
        let request = CounterRequest {
            name: name.to_string(),
            op: Some(counter_request::Op::CompareAndSwap(CounterCompareAndSwapRequest { expected_value, new_value })),
            context: vec![9, 9, 9].into(),
            payload: payload.clone().into(),
        };
        let id = 5 + i;
        owner.env.leader.set(true);
        let out = owner.process(ActorCommand::with_header(
            id,
            &AtomicCounterInMessage { msg: Some(In::CounterRequest(request)) },
        ));
        check(out.commands.is_empty(), "a replicated request is not answered before it is applied");
        let event = match out.event {
            Some(e) => e,
            None => {
                check(false, "the leader replicates every well-formed request");
                return;
            }
        };
        check(!event.contents.windows(3).any(|w| w == [9, 9, 9]), "the context of a request is not replicated");
        let misses = match choose("other", 3) {
            0 => false,
            1 => {
                // Replaced by a fresh replica at this point of the log.
                let b = other.save();
                other = Replica::start(CounterActor::new(), cfg.clone(), false);
                other.load(b);
                cover("restarted");
                false
            }
            _ => true,
        };
        let old = model.get(name).map_or(0, |v| v.0);
        let ok = old == expected_value;
        if ok {
            model.insert(name, (new_value, payload.clone()));
        }
        // Who leads by now makes no difference.
        owner.env.leader.set(any_bool("still leads"));
        other.env.leader.set(any_bool("leads now"));
        let replies = owner.apply(i + 1, true, &event);
        if misses {
            // Catches up by a snapshot of the other replica.
            let b = owner.save();
            other.load(b);
            cover("caught_up");
        } else {
            check(other.apply(i + 1, false, &event).is_empty(), "only the replica that accepted a request answers it");
        }
        check(replies.len() == 1 && replies[0].correlation_id == id, "each request is answered exactly once");
        let r = answer(&replies[0]);
        let op = match r.op {
            Some(counter_response::Op::CompareAndSwap(op)) => op,
            None => {
                check(false, "an applied compare and swap is answered as such");
                return;
            }
        };
        check(op.old_value == old, "the answer has the value before the operation");
        if ok {
            check(r.status == CounterStatus::Success as i32, "a swap with the expected value succeeds");
            check(op.new_value == new_value, "the answer has the value after the operation");
            cover("swapped");
        } else {
            check(r.status == CounterStatus::InvalidArgumentError as i32, "a swap with another value fails");
            cover("refused");
        }
        for r in [&mut owner, &mut other] {
            let s = snapshot(r);
            for x in ["a", "b"] {
                let have = s.get(x).cloned().unwrap_or_default();
                let want = model.get(x).cloned().unwrap_or_default();
                check(have.0 == want.0, "a counter changes only by successful swaps, on every replica");
                check(have.1 == want.1, "a counter keeps the payload of its last successful swap");
            }
        }
    }
}

/// Arbitrary bytes as a command: case = number of header bytes.
pub fn commands() {
    let mut r: Counter = Replica::start(CounterActor::new(), config(&[]), any_bool("leader"));
    let leader = r.env.leader.get();
    let header: Bytes = bytes("header", case() as usize).into();
    let id = any_u64("correlation");
    let out = r.process(ActorCommand { correlation_id: id, header, payload: Bytes::new() });
    match out.event {
        Some(e) => {
            check(out.commands.is_empty(), "a command is either accepted or answered");
            check(leader, "only the leader accepts requests");
            check(e.correlation_id == id, "an event keeps the correlation id of its command");
            cover("accepted");
            let replies = r.apply(1, true, &e);
            check(replies.len() == 1 && replies[0].correlation_id == id, "each request is answered exactly once");
        }
        None => {
            check(out.commands.len() == 1, "a command that is not accepted is answered");
            check(out.commands[0].correlation_id == id, "an answer has the correlation id of its command");
            let s = answer(&out.commands[0]).status;
            check(
                s == CounterStatus::Rejected as i32 || s == CounterStatus::InvalidOperationError as i32,
                "the answer tells why the command was not accepted",
            );
            check(s != CounterStatus::Rejected as i32 || !leader, "the leader does not reject requests");
            check(snapshot(&mut r).is_empty(), "a command that is not accepted changes nothing");
            cover("refused");
        }
    }
}
