//! Which scenarios decide which property, and how many runs each tier makes.

use crate::fw::*;
use crate::scen_build::*;
use crate::scen_conc::*;
use crate::scen_copy::*;
use crate::scen_edit::*;
use crate::scen_extract::*;
use crate::scen_hist::*;
use crate::scen_rebuild::*;
use crate::scen_read::*;
use crate::scen_table::*;
use crate::scen_window::*;

pub struct Entry {
    pub sc: Box<dyn Scenario>,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub scens: Vec<Entry>,
    pub rule: &'static str,
    pub components: serde_json::Value,
    pub assumptions: Vec<&'static str>,
}

fn e<X: Typed + 'static>(x: X, quick: u64, thorough: u64) -> Entry {
    Entry { sc: Box::new(T(x)), quick, thorough }
}

const L1_RULE: &str = "one case = one seeded workload plus one seeded schedule of stream behaviour and faults; non-trivial = the workload ran to its judgement and (where the property is about faults) at least one planned fault fired";

pub fn all() -> Vec<Prop> {
    let l1 = serde_json::json!({"real": ["disc_riider library (all of builder, reader_writer, window, fst, structs, new_reader)", "binrw, aes, cbc, sha1, encoding_rs"], "stub": ["disk and source streams (SimDisk)", "content provider", "progress callback"]});
    let l2 = serde_json::json!({"real": ["iso-tool binary", "disc-riider-py extension module in CPython 3.12", "dir_reader, builder, reader_writer, fst, structs, the Rust and C runtimes above the system calls", "the kernel's file system for calls the simulator lets through"], "stub": ["results of system calls on files of the scratch folder (errors, short transfers, interruptions, listing order, capacity, crash, change under way)", "system randomness", "Python progress and selection callbacks"]});
    let both = serde_json::json!({"real": ["disc_riider library", "iso-tool binary", "disc-riider-py extension module in CPython 3.12", "binrw, aes, cbc, sha1, encoding_rs", "the Rust and C runtimes above the system calls"], "stub": ["library scenarios: disk and source streams (SimDisk), content provider, callbacks", "program scenarios: results of system calls on files of the scratch folder, system randomness, Python callbacks"]});
    let mut v = Vec::new();
    let mut add = |id: &'static str, level: u8, scens: Vec<Entry>| {
        let c = match level {
            1 => &l1,
            2 => &l2,
            _ => &both,
        };
        v.push(Prop { id, scens, rule: L1_RULE, components: c.clone(), assumptions: vec![] });
    };
    add("C01", 1, vec![e(Build(Mode::RoundTrip), 1600, 24000), e(Huge(Mode::RoundTrip), 1, 3), e(Limits, 60, 800)]);
    add("C02", 1, vec![e(Build(Mode::Valid), 1600, 24000), e(Huge(Mode::Valid), 1, 3), e(Limits, 60, 800)]);
    add("C03", 1, vec![e(ReadSc(Mode::RoundTrip), 1500, 40000), e(Table(Mode::RoundTrip), 1500, 40000)]);
    add("C04", 1, vec![e(ReadSc(Mode::Faulted), 1500, 40000), e(Table(Mode::Faulted), 2000, 40000)]);
    add("C05", 3, vec![e(Build(Mode::Faulted), 4000, 80000), e(Table(Mode::Valid), 1500, 40000), e(CopySc(Mode::Faulted), 600, 12000)]);
    add("C06", 3, vec![e(Build(Mode::Crash), 2000, 24000), e(Rebuild(Mode::Crash), 900, 20000), e(CopySc(Mode::Crash), 300, 8000)]);
    add("C07", 1, vec![e(Build(Mode::Retry), 2500, 24000)]);
    add("C08", 3, vec![e(Build(Mode::Same), 900, 24000), e(Rebuild(Mode::Same), 900, 20000), e(CopySc(Mode::Same), 200, 8000)]);
    add("C09", 2, vec![e(Rebuild(Mode::RoundTrip), 900, 20000), e(Rebuild(Mode::Faulted), 2600, 40000), e(Rebuild(Mode::Retry), 900, 20000)]);
    add("C10", 2, vec![e(Extract(Mode::RoundTrip), 900, 20000), e(Extract(Mode::Faulted), 2200, 30000), e(Extract(Mode::Retry), 900, 20000), e(Hist { extract: true, faults: false }, 400, 12000), e(Hist { extract: true, faults: true }, 600, 15000)]);
    add("C11", 3, vec![e(Damaged, 3500, 60000), e(Rebuild(Mode::Valid), 500, 15000), e(Extract(Mode::Valid), 1000, 30000)]);
    add("C12", 2, vec![e(Extract(Mode::Crash), 2500, 60000)]);
    add("C13", 1, vec![e(WindowSc(false), 15000, 200000), e(WindowSc(true), 15000, 200000), e(ReadSc(Mode::Retry), 300, 6000)]);
    add("C14", 3, vec![e(Edit, 4000, 24000), e(CopySc(Mode::RoundTrip), 400, 12000)]);
    add("C15", 3, vec![e(Huge(Mode::Progress), 1, 3), e(Build(Mode::Progress), 900, 24000), e(Rebuild(Mode::Progress), 600, 15000), e(Extract(Mode::Progress), 600, 15000)]);
    add("C16", 3, vec![e(Build(Mode::Steps), 900, 24000), e(ReadSc(Mode::Steps), 500, 12000), e(Rebuild(Mode::Steps), 600, 15000), e(Extract(Mode::Steps), 600, 15000), e(CopySc(Mode::Steps), 250, 8000)]);
    add("C17", 2, vec![e(Extract(Mode::Same), 1800, 40000)]);
    add("C18", 3, vec![e(Conc, 900, 20000), e(PyConc, 1500, 30000)]);
    add("C21", 2, vec![e(Hist { extract: false, faults: false }, 700, 20000), e(Hist { extract: false, faults: true }, 1000, 30000)]);
    v
}

pub fn get(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
