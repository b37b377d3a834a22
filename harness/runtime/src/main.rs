#![allow(dead_code)]
mod cluster;
mod comm;
mod driver;
mod env;
mod policy;
mod snapshot;
mod storage;
sym::harnesses! {
    h_replication => driver::replication;
    h_lifecycle => driver::lifecycle;
    h_check_cluster => driver::check_cluster;
    h_reconfigured => driver::reconfigured;
    h_repeats => driver::repeats;
    h_missed => driver::missed;
    h_forged => driver::forged;
    h_spontaneous => driver::spontaneous;
    h_membership => driver::membership;
    h_catching_up => driver::catching_up;
    h_time => driver::time;
    h_lameduck => driver::lameduck;
    h_comm_hostile => comm::hostile;
    h_comm_leaving => comm::leaving;
    h_comm_mute => comm::mute;
    h_comm_refused => comm::refused;
    h_policy => policy::policy;
    h_channel => policy::channel;
    h_storage => storage::log;
    h_snapshot_one => snapshot::transfer;
    h_snapshot_bag => snapshot::network;
    h_snapshot_roles => snapshot::roles;
    h_snapshot_parts => snapshot::parts;
}
