"""Third batch of behaviour-preserving rewrites: caches, statics, other ways to read files (see refactors.py)."""
import refactors
from refactors import *

refactors.R.clear()
CH, ZI = "src/iso8601/chronology.rs", "src/zoneinfo.rs"
ALL = "Z01 D13 T01 T02 L01 L03 D03 D14 D02"
BODY = """    // TODO make this cache time zones, add leap smearing etc
    let tz_data = zoneinfo::load_zoneinfo(time_zone);
"""

r("cache-hashmap", CH, ALL, (BODY, """    static CACHE: std::sync::LazyLock<std::sync::Mutex<std::collections::HashMap<String, Chronology>>> =
        std::sync::LazyLock::new(Default::default);
    let mut cache = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    cache
        .entry(time_zone.to_string())
        .or_insert_with(|| read_chronology(time_zone))
        .clone()
}

fn read_chronology(time_zone: &str) -> Chronology {
    let tz_data = zoneinfo::load_zoneinfo(time_zone);
"""))

r("cache-vec", CH, ALL, (BODY, """    static CACHE: std::sync::RwLock<Vec<(String, Chronology)>> = std::sync::RwLock::new(Vec::new());
    if let Some((_, known)) = CACHE.read().unwrap().iter().find(|(name, _)| name == time_zone) {
        return known.clone();
    }
    let fresh = read_chronology(time_zone);
    CACHE.write().unwrap().push((time_zone.to_owned(), fresh.clone()));
    fresh
}

fn read_chronology(time_zone: &str) -> Chronology {
    let tz_data = zoneinfo::load_zoneinfo(time_zone);
"""))

r("cache-btree", CH, ALL, (BODY, """    use std::collections::BTreeMap;
    use std::sync::{Mutex, OnceLock};
    static CACHE: OnceLock<Mutex<BTreeMap<String, Chronology>>> = OnceLock::new();
    let cache = CACHE.get_or_init(|| Mutex::new(BTreeMap::new()));
    let hit = cache.lock().unwrap().get(time_zone).cloned();
    match hit {
        Some(known) => known,
        None => {
            let fresh = read_chronology(time_zone);
            cache.lock().unwrap().insert(time_zone.into(), fresh.clone());
            fresh
        }
    }
}

fn read_chronology(time_zone: &str) -> Chronology {
    let tz_data = zoneinfo::load_zoneinfo(time_zone);
"""))

r("cache-thread", CH, ALL, (BODY, """    thread_local! {
        static LAST: std::cell::RefCell<Option<(String, Chronology)>> = const { std::cell::RefCell::new(None) };
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        match &*last {
            Some((name, known)) if name == time_zone => known.clone(),
            _ => {
                let fresh = read_chronology(time_zone);
                *last = Some((time_zone.to_string(), fresh.clone()));
                fresh
            }
        }
    })
}

fn read_chronology(time_zone: &str) -> Chronology {
    let tz_data = zoneinfo::load_zoneinfo(time_zone);
"""))

r("read-open", ZI, ALL, ("""    let path = tzdir().join("right").join(name);
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
""", """    let mut path = tzdir();
    path.push("right");
    path.push(name);
    let mut data = Vec::new();
    let mut file = std::fs::File::open(&path).expect("failed to read zoneinfo file");
    std::io::Read::read_to_end(&mut file, &mut data).expect("failed to read zoneinfo file");
"""))

r("read-format", ZI, "Z01", ("""    let path = tzdir().join("right").join(name);
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
""", """    let path = format!("{}/right/{}", tzdir().display(), name);
    let data = match std::fs::read(&path) {
        Ok(data) => data,
        Err(e) => panic!("failed to read {}: {}", path, e),
    };
"""))

r("leap-clone", CH, ALL, ("""    let leap_seconds = load_leap_segments();
    Chronology {""", """    let leap_seconds = if time_zone == "UTC" || time_zone.is_empty() {
        load_leap_segments()
    } else {
        let mut all = load_leap_segments();
        all.shrink_to_fit();
        all
    };
    Chronology {"""))

r("tzdir-match", ZI, "Z01 T01", ("""    std::env::var("TZDIR")
        .unwrap_or_else(|_| "/usr/share/zoneinfo".to_string())
        .into()
""", """    const DEFAULT: &str = "/usr/share/zoneinfo";
    match std::env::var_os("TZDIR") {
        Some(dir) => PathBuf::from(dir),
        None => PathBuf::from(DEFAULT),
    }
"""))

r("utc-cached", ZI, ALL, ("""    let utc = iso8601::load_chronology("UTC");
    let leap_seconds = utc.leap_seconds();
""", """    static UTC: std::sync::OnceLock<iso8601::Chronology> = std::sync::OnceLock::new();
    let utc = UTC.get_or_init(|| iso8601::load_chronology("UTC"));
    let leap_seconds = utc.leap_seconds();
"""))

if __name__ == "__main__":
    main()
