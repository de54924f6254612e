//! Harness: one entry function per exploration; see /verif/DESIGN.md.
//! Natively it replays an input file: vfharness ENTRY FILE

#[macro_use]
mod rt;
mod builders;
mod bz;
mod coord;
mod cs;
mod doc;
mod files;
mod objs;
mod packed;
mod pbft;
mod serde_rt;
mod time;
mod xmlt;

type Entry = (&'static str, extern "C" fn());

#[used]
static ENTRIES: &[&[Entry]] = &[builders::ENTRIES, coord::ENTRIES, cs::ENTRIES, files::ENTRIES, objs::ENTRIES, pbft::ENTRIES, serde_rt::ENTRIES, time::ENTRIES, xmlt::ENTRIES];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for l in ENTRIES {
            for e in *l {
                println!("{}", e.0);
            }
        }
        return;
    }
    rt::native_open(&a[2]);
    for l in ENTRIES {
        for e in *l {
            if e.0 == a[1] {
                (e.1)();
                if rt::native_failed() {
                    println!("VF-END failed");
                    std::process::exit(1);
                }
                println!("VF-END ok");
                return;
            }
        }
    }
    eprintln!("no such entry");
    std::process::exit(73);
}
