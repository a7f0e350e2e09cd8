use crate::sim::*;
mod archive;
mod basic;
mod erase;
mod faults;
mod keys;
mod mem;
mod hist;
mod par;
mod people;
mod room;
pub mod scen;

pub struct Prop { pub id: &'static str, pub level: &'static str, pub quick: u64, pub what: &'static str, pub case: fn(&mut Case) -> R }
const fn p(id: &'static str, level: &'static str, quick: u64, case: fn(&mut Case) -> R, what: &'static str) -> Prop { Prop { id, level, quick, what, case } }
pub const PROPS: &[Prop] = &[
    p("C01", "exploration", 5000, basic::c01, "random content, cipher, hash, version and header placement through library and command line; short and interrupted transfers"),
    p("C02", "exploration", 3000, faults::c02, "every operation of library and command line, each run without faults and then with failing, short-then-failing and permanently failing storage calls and full disks aimed at the calls of the clean run"),
    p("C03", "exploration", 1500, basic::c03, "bit flips, truncation, extension, lost, duplicated, swapped, foreign blocks, sectors, key slots and headers at rest, and flips while reading, on all formats"),
    p("C04", "exploration", 1500, keys::c04, "random histories of adding, changing, deleting, verifying keys and decrypting, against a set of keys and the reference implementation"),
    p("C05", "fault_enumeration", 1600, keys::c05, "a kill, power losses and an error before every storage call of each key and header change, and repetitions after the interruption"),
    p("C06", "exploration", 6000, keys::c06, "dump, strip, decrypt, restore on all header versions; targets that are short, empty, not zero; damaged headers"),
    p("C07", "exploration", 8000, faults::c07, "operations of library and command line under failing calls, full disks, kills and power loss; command lines naming one file twice in different spellings"),
    p("C08", "fault_enumeration", 3500, faults::c08, "command-line encrypt, decrypt and pack with erase; kills, power losses, failing calls and errors followed by crashes, aimed around the start of the erasure"),
    p("C09", "exploration", 6000, erase::c09, "erasing files of all sizes and pass counts, with failing and short calls and several write-back behaviours; sequence of writes and medium content at release"),
    p("C10", "exploration", 4500, erase::c10, "erasing directory trees with links and read-only files under random and priority schedules, with faults"),
    p("C11", "exploration", 3000, archive::c11, "packing and unpacking trees in all spellings, with and without compression, under schedules, short transfers and failing calls"),
    p("C12", "exploration", 7000, archive::c12, "archives with hostile and safe names, under schedules and faults"),
    p("C13", "exploration", 6000, archive::c13, "packing and unpacking recognisable content with failing calls, full disks, wrong keys, damaged and refused entries"),
    p("C14", "exploration", 2500, par::c14, "two to four operations in threads of one process under random and priority schedules, with equal random numbers and name collisions"),
    p("C15", "exploration", 1000, keys::c15, "histories of encrypting, packing and key changes in many processes that differ only in the system's randomness, and a failing random source"),
    p("C16", "exploration", 1400, basic::c16, "hashing content of all lengths from any position with short, interrupted and failing reads"),
    p("C17", "exploration", 5000, basic::c17, "reference-made files of versions 1 to 5 in both modes, all ciphers and hashes, right and wrong keys, with short and interrupted transfers"),
    p("C18", "exploration", 6000, basic::c18, "passphrases of many lengths for extreme, constant, cyclic and random outcomes of the random source; occurrence of every word"),
    p("C19", "exploration", 8000, faults::c19, "every operation on well-formed, damaged and random inputs, archives and answers, with failing, short, interrupted calls, full disks and random schedules"),
    p("C20", "exploration", 2500, mem::c20, "encrypting, decrypting, packing, unpacking and key changes with right and wrong keys and failing calls; every block of memory searched when it is released"),
    p("C22", "exploration", 4000, people::c22, "commands whose outputs exist already, with and without -f, all kinds of answers; short, interrupted and failing calls, full disks, kills and power loss"),
    p("C23", "exploration", 4000, people::c23, "commands with several sources of a key at once, some unusable; short, interrupted and failing calls, kills and power loss"),
    p("C24", "exploration", 200, room::c24, "every operation on content of two sizes, with short, interrupted and failing calls and schedules; archives whose records claim wrong sizes; most memory in use at a time"),
    p("C25", "exploration", 3000, mem::c25, "operations with recognisable keys and content; what is written, shown and named, and what the terminal shows of typing, under short, interrupted and failing calls, full disks, kills and power loss"),
    p("C26", "exploration", 3000, faults::c26, "operations that are interrupted by failing calls, full disks, kills and power loss, up to three times, and repeated"),
    p("C27", "exploration", 5000, people::c27, "commands whose output goes to a closed pipe, a full disk or a terminal that went away, from any point on, in part, or for once"),
    p("C28", "exploration", 4000, faults::c28, "every operation under random and priority schedules, with refused threads, failing calls, full disks and parts that cannot be carried out; what happens after it returned"),
];
