//! Which spaces are explored for which property, and what is decided on every case.
use crate::engine::{Case, Fx, Job, Stats};
use crate::evals as ev;
use crate::model::{A, B, D, E, F, FIELDS, I, K, P, S_, R_, W, X};
use crate::render;
use crate::spaces::{self as sp, Space};
use crate::values as va;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;

pub const IDS: [&str; 23] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23",
];
/// set when the listed defect of C21 shows
pub static VOLTAGE: AtomicBool = AtomicBool::new(false);

type R = Result<(), String>;
fn on(s: Space, eval: impl Fn(&Case, &[u8], &mut Stats) -> R + Sync + Send + 'static) -> Job {
    let g = s.gen.clone();
    Job { name: s.name.clone(), items: s.items, gen: Box::new(move |i, c, out| g(i, c, out)), eval: Box::new(eval) }
}
fn lock(s: Space, mask: u32) -> Job {
    on(s, move |c, b, st| ev::lockstep(c, b, mask, st))
}
fn locks(v: Vec<Space>, mask: u32) -> Vec<Job> {
    v.into_iter().map(|s| lock(s, mask)).collect()
}
/// every case through both kinds of entry point
fn kinds(s: Space) -> Space {
    s.each(", both entry points", |c, out| {
        out(c);
        if !c.v3 && c.major >= 2 {
            let mut d = c.clone();
            d.v3 = true;
            out(&d);
        }
    })
}
fn placed(s: Space) -> Space {
    s.each(", against both guard pages", |c, out| {
        let mut d = c.clone();
        for p in 0..2 {
            d.place = p;
            out(&d);
        }
    })
}
fn only(s: Space, types: &'static [u8]) -> Space {
    s.each("", move |c, out| {
        if types.contains(&c.buf[0]) {
            out(c)
        }
    })
}

const ALL: &[u8] = &sp::TYPES;
const VS: &[(u8, u8)] = &[(2, 1), (3, 0)];
const VS4: &[(u8, u8)] = &[(1, 9), (2, 0), (2, 8), (3, 0), (3, 7), (4, 1)];
const VERSIONED: &[u8] = &[0, 1, 4, 7, 13, 16];

/// the contents of single structures of these types
fn contents(types: &'static [u8], thorough: bool) -> Vec<Space> {
    vec![
        sp::one_byte(types, 4, true),
        sp::versions_x_lengths(types, if thorough { 4 } else { 2 }),
        sp::all_versions(types, thorough),
        sp::two_bytes(types, thorough),
        sp::adjacent(types, thorough),
        sp::wide_fields(types),
        sp::field_tuples(types, false),
        sp::string_fields(types),
        sp::string_pairs(types),
        sp::field_texts(types),
        sp::bytes_x_versions(types),
        sp::bytes_x_shapes(types),
        sp::situated(types),
        only(sp::types_x_handles(thorough), types),
    ]
    .into_iter()
    .chain(sourced(types))
    .chain(thorough.then(|| sp::field_tuples(types, true)))
    .collect()
}
/// values that occur in the sources
fn sourced(types: &'static [u8]) -> Vec<Space> {
    let mut v = vec![sp::dict_numbers(types)];
    v.extend(sp::dict_arrays(types));
    v.extend(sp::fresh_bytes(types));
    v
}
fn lists(types: &'static [u8], thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    for t in types {
        match t {
            3 => v.extend([sp::enclosure_lists(thorough), sp::enclosure_elements()]),
            9 => v.push(sp::slot_lists()),
            11 => v.push(sp::string_counts(&[(11, 5)])),
            12 => v.extend([sp::string_counts(&[(12, 5)]), sp::option_counts()]),
            13 => v.push(sp::string_counts(&[(13, 0x16)])),
            14 => v.push(sp::group_lists()),
            15 => v.extend([sp::event_lists(), sp::event_descriptors()]),
            _ => {}
        }
    }
    v
}
/// tables of several structures
fn tables(thorough: bool) -> Vec<Space> {
    vec![
        sp::walks(if thorough { 4 } else { 3 }, if thorough { 3 } else { 2 }, if thorough { VS4 } else { VS }),
        sp::raw_tables(if thorough { 9 } else { 7 }, if thorough { VS4 } else { VS }),
        sp::walk_versions(),
        sp::big_tables(),
        sp::len_sweep(),
        sp::tails(),
        sp::crowds(),
    ]
    .into_iter()
    .chain(sp::fresh_sizes())
    .collect()
}
fn string_areas(thorough: bool) -> Vec<Space> {
    vec![
        sp::string_areas(if thorough { 11 } else { 9 }),
        sp::string_counts(sp::LISTS),
        sp::string_lengths(),
        sp::broken_strings(),
        sp::related_strings(),
        sp::string_ends(),
        sp::string_contents(if thorough { 3 } else { 2 }),
        sp::utf8_contents(false),
        sp::string_fields(ALL),
        sp::string_pairs(ALL),
        sp::field_texts(ALL),
        sp::dict_strings(),
    ]
    .into_iter()
    .chain(sp::fresh_sizes())
    .collect()
}
fn entry_points(thorough: bool) -> Vec<Space> {
    vec![
        sp::ep_lengths(),
        sp::ep_bytes(),
        sp::ep_pairs(),
        sp::ep_two_bytes(),
        sp::ep_checksums(),
        sp::ep_positions(if thorough { 100 } else { 66 }),
        sp::ep_truncated(),
        sp::ep_alphabet(if thorough { 7 } else { 6 }),
        sp::ep_large(),
        sp::ep_numbers(),
    ]
    .into_iter()
    .chain(sp::fresh_positions())
    .collect()
}

/// structures next to each other for the pairwise comparisons: aux = offset | new value << 16
fn neighbours(thorough: bool) -> Space {
    let s = sp::versions_x_lengths(ALL, if thorough { 4 } else { 2 });
    s.each(": pairs differing in one byte", move |c, out| {
        let len = c.buf[1] as usize;
        if !(c.major, c.minor).eq(&(3, 5)) && !(c.major, c.minor).eq(&(2, 2)) && !(thorough && c.major == 2 && c.minor == 6) {
            return;
        }
        // lengths that a layout of the type has
        if !sp::spec(c.buf[0]).iter().any(|s| s.0 == len) {
            return;
        }
        let mut d = c.clone();
        for o in 4..len {
            for x in 0..=255u64 {
                d.aux = o as u64 | x << 16;
                out(&d);
            }
        }
        for o in len..c.buf.len() - 2 {
            if c.buf[o] != 0 {
                for x in 1..=255u8 {
                    d.aux = o as u64 | (x as u64) << 16;
                    out(&d);
                }
            }
        }
    })
}
/// tables for the interleavings: buf = the blocks, aux = number of blocks per table
fn interleavings(thorough: bool) -> Vec<Job> {
    let m = sp::menu();
    let k = m.len();
    let mk = move |ids: &[usize]| -> Vec<u8> { ids.iter().flat_map(|i| m[*i].clone()).collect() };
    let mk2 = mk.clone();
    let two = Space {
        name: "interleavings of two iterators".into(),
        items: k * k,
        gen: Arc::new(move |i, c, out| {
            for j in 0..k * k {
                let (a, b) = (mk(&[i / k, i % k]), mk(&[j / k, j % k]));
                *c = Case { buf: a.clone(), aux: a.len() as u64, ..Case::default() };
                c.buf.extend(b);
                for (v3, major) in [(false, 2), (false, 3), (true, 3)] {
                    c.v3 = v3;
                    c.major = major;
                    c.minor = 5;
                    out(c);
                }
            }
        }),
    };
    let three = Space {
        name: "interleavings of three iterators".into(),
        items: k,
        gen: Arc::new(move |i, c, out| {
            for j in 0..k * k {
                let t = [mk2(&[i]), mk2(&[j / k]), mk2(&[j % k])];
                *c = Case { buf: t.concat(), aux: (t[0].len() | (t[0].len() + t[1].len()) << 16) as u64, ..Case::default() };
                c.major = 2;
                c.minor = 6;
                out(c);
            }
        }),
    };
    let run = |c: &Case, b: &[u8], st: &mut Stats| -> R {
        let (x, y) = (c.aux as usize & 0xFFFF, (c.aux >> 16) as usize);
        let parts: Vec<&[u8]> = if y == 0 { vec![&b[..x], &b[x..]] } else { vec![&b[..x], &b[x..y], &b[y..]] };
        let t: Vec<(&[u8], Case)> = parts
            .iter()
            .enumerate()
            .map(|(n, p)| (*p, Case { v3: c.v3 && n == 0, major: if n == 2 { 3 } else { c.major }, minor: c.minor, len: p.len() as u32, ..Case::default() }))
            .collect();
        ev::interleave(&t, st)
    };
    // a table against itself: twice the same bytes
    let own = move |c: &Case, b: &[u8], st: &mut Stats| -> R {
        let cc = Case { len: b.len() as u32, ..c.clone() };
        ev::interleave(&[(b, cc.clone()), (b, cc)], st)
    };
    let blocks = sp::walks(if thorough { 3 } else { 2 }, 0, VS).each("", |c, out| {
        if c.len as usize == c.buf.len() {
            out(c)
        }
    });
    vec![on(two, run), on(three, run), on(Space { name: "interleavings of two iterators over one table".into(), ..blocks }, own)]
}

/// tables of 4 GiB (see `ev::huge`)
fn huge(level: u8) -> Job {
    let mut v = vec![];
    for (k, len) in [(4u64, 4u64), (4, 6), (5, 4), (6, 6), (8, 4), (1, 4), (2, 4), (3, 4), (260, 255), (300, 255), (255, 200)] {
        for strs in 0..4u64 {
            for behind in 0..4u64 {
                for short in 0..9u32 {
                    let keep = match level {
                        0 => (strs, short, behind) == (2, 0, 0) && k <= 8 || k == 8 && strs == 0 && behind == 1 && short == 0,
                        1 => short == 0 && behind < 2,
                        _ => behind < 3 || short == 0,
                    };
                    if keep {
                        v.push((k | len << 8 | strs << 16 | behind << 20, u32::MAX - short));
                    }
                }
            }
        }
    }
    let n = v.len();
    let s = Space {
        name: "tables of 4 GiB".into(),
        items: n,
        gen: Arc::new(move |i, c, out| {
            *c = Case { v3: true, major: 2, minor: 8, aux: v[i].0, len: v[i].1, ..Case::default() };
            out(c);
        }),
    };
    on(s, |c, _, st| ev::huge(c, st))
}
fn anywhere(s: Space) -> Job {
    let sur = ev::surroundings();
    thread_local!(static SCRATCH: RefCell<Vec<u8>> = const { RefCell::new(vec![]) });
    on(s, move |c, b, st| SCRATCH.with(|x| ev::anywhere(c, b, &sur, &mut x.borrow_mut(), st)))
}
fn digest_case(c: &Case, buf: &[u8], st: &mut Stats, o: &mut Fx) {
    st.steps += 1;
    let Some(e) = ev::entry(c) else { return };
    for g in e.structures(buf).take(buf.len() / 6 + 2) {
        st.steps += 1;
        st.class(ev::outcome(buf[0], &g));
        render::item(o, &g);
    }
}
fn digest_entry(_: &Case, buf: &[u8], st: &mut Stats, o: &mut Fx) {
    st.steps += 1;
    let e = dmidecode::EntryPoint::search(buf);
    st.class(if e.is_ok() { "entry point" } else { "no entry point" });
    render::entry(o, &e);
}
fn digest_values(c: &Case, _: &[u8], st: &mut Stats, o: &mut Fx) {
    st.steps += 1;
    st.class("conversions");
    va::conversions(c.aux as u16, o);
}
pub type Digest = fn(&Case, &[u8], &mut Stats, &mut Fx);
/// the spaces of C23 and what is digested
pub fn digests(thorough: bool) -> Vec<(Space, Digest)> {
    let t = thorough;
    let mut v: Vec<(Space, Digest)> = vec![];
    for s in [
        sp::versions_x_lengths(ALL, if t { 4 } else { 1 }),
        sp::one_byte(ALL, if t { 4 } else { 1 }, t),
        sp::walks(if t { 3 } else { 2 }, if t { 2 } else { 1 }, VS),
        sp::raw_tables(if t { 7 } else { 6 }, VS),
        sp::len_sweep(),
        sp::tails(),
        sp::type_pairs(!t),
        sp::big_tables().each("", move |c, out| {
            if t || c.buf.len() < 200_000 {
                out(c)
            }
        }),
        sp::enclosure_lists(false),
        sp::slot_lists().each("", move |c, out| {
            if t || c.minor == 6 && c.buf[5] != 0xFF {
                out(c)
            }
        }),
        sp::event_lists(),
        sp::group_lists(),
        sp::string_counts(sp::LISTS).each("", move |c, out| {
            if t || c.buf.len() % 4 == 0 {
                out(c)
            }
        }),
        sp::string_lengths(),
        sp::broken_strings().each("", move |c, out| {
            if t || c.buf.len() < 160 && c.buf[0] == 11 {
                out(c)
            }
        }),
        sp::related_strings().each("", move |c, out| {
            if t || c.buf[0] == 11 {
                out(c)
            }
        }),
        sp::string_ends().each("", move |c, out| {
            if t || c.buf[0] == 11 {
                out(c)
            }
        }),
        only(sp::dict_strings(), if t { ALL } else { &[0x80, 1, 11, 12, 13, 22] }),
        sp::dict_numbers(ALL).each("", move |c, out| {
            if t || c.buf[4] == 1 {
                out(c)
            }
        }),
    ]
    .into_iter()
    .chain(sp::fresh_sizes().map(|s| {
        s.each("", move |c, out| {
            if t || c.buf.len() < 200_000 {
                out(c)
            }
        })
    }))
    .chain(sp::dict_arrays(ALL))
    {
        v.push((s, digest_case as Digest));
    }
    for s in [sp::ep_lengths(), sp::ep_bytes(), sp::ep_checksums(), sp::ep_truncated(), sp::ep_positions(if t { 66 } else { 33 })] {
        v.push((s, digest_entry as Digest));
    }
    v.push((sp::numbers("conversions", 65_536), digest_values as Digest));
    v
}

pub fn jobs(id: &str, thorough: bool) -> Vec<Job> {
    let t = thorough;
    let mut v: Vec<Job> = vec![];
    match id {
        "C01" => {
            let exercise_in = |s: Space| {
                on(s, |c, b, st| {
                    ev::exercise(c, b, false, false, st)?;
                    ev::lockstep(c, b, P, st)
                })
            };
            for s in tables(t) {
                v.push(exercise_in(placed(s)));
            }
            for s in string_areas(t) {
                v.push(exercise_in(placed(s)));
            }
            for s in lists(ALL, t) {
                v.push(exercise_in(s));
            }
            for s in lists(&[3, 9, 14, 15], false) {
                v.push(exercise_in(sp::bare(s)));
            }
            v.push(exercise_in(sp::bare(sp::versions_x_lengths(ALL, 4))));
            v.push(exercise_in(placed(sp::versions_x_lengths(ALL, if t { 4 } else { 2 }))));
            v.push(exercise_in(sp::one_byte(ALL, if t { 4 } else { 2 }, t)));
            // the formatted area cut off at every byte by the end of the buffer
            v.push(exercise_in(placed(truncated(ALL))));
            v.push(on(sp::raw_lengths(), ev::accessors));
            for s in entry_points(t) {
                v.push(on(placed(s), |_, b, st| ev::search(b, true, st).or(Ok(()))));
            }
        }
        "C02" => {
            for s in tables(t).into_iter().chain(string_areas(t)).chain(lists(ALL, t)).chain(contents(ALL, t)).chain([truncated(ALL)]) {
                let pretty = t || s.name.contains("versions") || s.name.contains("lists") || s.name.contains("sequences") || s.name.contains("counts");
                let forms = ["all types x handles", "all bytes", "all lengths x versions", "tables up to", "0..300"].iter().any(|n| s.name.contains(n));
                v.push(on(s, move |c, b, st| ev::exercise(c, b, pretty, forms, st)));
            }
            v.push(on(sp::deep(), |c, b, st| ev::on_small_stack(|| ev::exercise(c, b, false, false, st))));
            // each value of each byte once more, in all forms of formatting and in buffers that are too small
            let last = sp::one_byte(ALL, 1, false).each(", all forms", move |c, out| {
                if (c.major, c.minor) == (3, 7) {
                    out(c)
                }
            });
            v.push(on(last, |c, b, st| ev::exercise(c, b, true, true, st)));
            for s in entry_points(t) {
                v.push(on(s, |_, b, st| {
                    st.steps += 1;
                    let e = dmidecode::EntryPoint::search(b);
                    st.class(if e.is_ok() { "entry point" } else { "no entry point" });
                    let mut o = Fx(1);
                    render::entry(&mut o, &e);
                    if let Ok(e) = e {
                        // what was searched as a table
                        for g in e.structures(b).take(64) {
                            render::item(&mut o, &g);
                        }
                    }
                    std::hint::black_box(o.fin());
                    Ok(())
                }));
            }
            if t {
                v.push(huge(0));
            }
            v.push(on(sp::raw_lengths(), |c, b, st| ev::accessors(c, b, st).or(Ok(()))));
            v.push(on(sp::numbers("conversions of all codes", 65_536), |c, _, st| va::smoke(c, st)));
        }
        "C03" => {
            for s in tables(t).into_iter().chain(string_areas(t)).chain(lists(ALL, t)) {
                v.push(on(s, ev::terminates));
            }
            v.push(on(kinds(sp::versions_x_lengths(ALL, 4)), ev::terminates));
            v.push(on(sp::one_byte(ALL, 4, t), ev::terminates));
            v.push(huge(if t { 2 } else { 0 }));
            v.push(on(sp::numbers("layouts of bit fields", 256 * 36), |c, _, st| va::finite(c, st)));
        }
        "C04" => {
            v = locks(tables(t), W | K);
            v.push(lock(kinds(sp::versions_x_lengths(ALL, 1)), W | K));
            v.extend(locks(string_areas(t), W | K));
            v.extend(locks(lists(ALL, t), W | K));
            v.extend(locks(contents(ALL, false), W | K));
            v.push(lock(sp::area_lengths(if t { 20_000 } else { 9_000 }), W | K));
            v.push(lock(truncated(ALL), W | K));
            v.push(lock(sp::type_pairs(false), W | K));
            for s in [sp::walks(2, if t { 2 } else { 1 }, VS), sp::len_sweep(), sp::tails(), sp::walk_versions()] {
                v.push(on(Space { name: format!("iterator protocol: {}", s.name), ..s }, ev::walk_protocol));
            }
            v.push(huge(if t { 1 } else { 0 }));
            v.push(on(sp::entry_fields(), ev::walk_varied));
        }
        "C05" => {
            v.push(anywhere(sp::versions_x_lengths(ALL, if t { 4 } else { 1 }).each("", move |c, out| {
                // a structure alone, where it is a complete one
                if t || c.minor < 9 && (2..4).contains(&c.major) {
                    out(c)
                }
            })));
            v.push(anywhere(sp::one_byte(ALL, if t { 2 } else { 1 }, false).each("", move |c, out| {
                if t || (c.major, c.minor) == (3, 7) {
                    out(c)
                }
            })));
            v.push(anywhere(sp::string_counts(sp::LISTS).each("", |c, out| {
                if c.buf.len() < 600 {
                    out(c)
                }
            })));
            v.push(anywhere(sp::len_sweep().each("", |c, out| {
                if c.len as usize == c.buf.len() {
                    // the middle structure on its own
                    let mut d = c.clone();
                    d.v3 = false;
                    d.buf.drain(..7);
                    let n = d.buf.len();
                    d.buf.truncate(n - 6);
                    d.len = d.buf.len() as u32;
                    if d.buf[1] >= 4 {
                        out(&d)
                    }
                }
            })));
            v.push(on(sp::kind_triples(t), ev::alone));
            v.push(on(sp::far(), ev::alone));
            v.push(on(sp::references(), ev::alone));
            v.push(on(sp::crowds(), ev::alone));
            v.push(on(sp::entry_fields(), ev::same_varied));
            v.push(on(sp::addressed(), ev::addresses));
            v.extend(sp::fresh_sizes().map(|s| on(s, ev::alone)));
            v.extend(sp::fresh_bytes(ALL).into_iter().map(|s| on(s.each(", in a table", |c, out| {
                // behind and before structures that share its handle and strings
                let mut d = c.clone();
                d.buf = [&c.buf[..], &c.buf, &[0x80, 4, c.buf[2], c.buf[3], 0, 0]].concat();
                d.len = d.buf.len() as u32;
                out(&d);
            }), ev::alone)).take(1));
            v.push(on(sp::type_pairs(!t), ev::alone));
            v.extend(interleavings(t));
        }
        "C06" => {
            v = locks(string_areas(t), S_ | R_);
            v.push(lock(sp::string_contents(3), S_ | R_));
            v.push(lock(sp::utf8_contents(t), S_ | R_));
            v.push(lock(sp::area_lengths(if t { 20_000 } else { 9_000 }), S_ | R_));
            v.push(lock(sp::byte_pairs(ALL, t), S_ | R_));
            v.push(lock(sp::versions_x_lengths(ALL, 4), S_ | R_));
            v.push(lock(sp::bytes_x_shapes(ALL), S_ | R_));
            v.push(lock(sp::one_byte(ALL, 4, t), S_ | R_));
            v.push(lock(sp::walks(3, 1, VS), S_ | R_));
            v.extend(locks(sourced(ALL), S_ | R_));
        }
        "C07" | "C08" => {
            let fields = id == "C08";
            for s in entry_points(t) {
                v.push(on(s, move |_, b, st| ev::search(b, fields, st)));
            }
            for s in [sp::ep_byte_pairs(t), sp::ep_tuples(false), sp::ep_blocks(if t { 7 } else { 6 })] {
                v.push(on(s, move |_, b, st| ev::search(b, fields, st)));
            }
            if t {
                v.push(on(sp::ep_tuples(true), move |_, b, st| ev::search(b, fields, st)));
            }
            v.push(on(sp::ep_addressed(), move |_, b, st| ev::addresses_search(b, fields, st)));
        }
        "C09" => {
            v.push(lock(sp::types_x_handles(t), K | F));
            v.push(on(sp::raw_lengths(), ev::accessors));
            v.push(on(sp::slices(), va::slices));
            v.push(lock(sp::raw_lengths(), K | F));
            v.push(lock(kinds(sp::versions_x_lengths(ALL, 1)), K));
            v.push(lock(sp::len_sweep(), K | F));
            v.push(lock(sp::walks(2, 1, VS), K | F));
            v.push(lock(sp::type_pairs(false), K | F));
            v.push(lock(sp::crowds(), K | F));
            v.extend(locks(contents(ALL, false), K));
            v.extend(locks(lists(ALL, false), K));
            v.extend(locks(string_areas(t), K | F));
        }
        "C10" | "C11" | "C12" | "C13" => {
            let types: &'static [u8] = match id {
                "C10" => &[0, 1, 2, 3],
                "C11" => &[4, 7],
                "C12" => &[8, 9, 11, 12, 13, 14, 15],
                _ => &[16, 17, 18, 19, 20, 21, 22],
            };
            v = locks(contents(types, t), FIELDS);
            v.push(lock(sp::code_pairs(types, true), FIELDS));
            v.push(lock(sp::code_triples(types, if t { 0x40 } else { 0x25 }), FIELDS));
            v.push(lock(sp::code_x_edges(types, if t { &[0, 3] } else { &[0] }), FIELDS));
            v.push(lock(sp::byte_pairs(types, t), FIELDS));
            v.extend(locks(lists(types, t), FIELDS));
            v.push(lock(only(sp::dict_strings(), types), FIELDS));
            if matches!(id, "C10" | "C12") {
                v.push(lock(only(sp::related_strings(), types), FIELDS));
            }
            if id == "C10" {
                v.push(lock(sp::uuids(), FIELDS));
            }
        }
        "C14" => {
            v.push(lock(kinds(sp::versions_x_lengths(ALL, 4)), FIELDS | A));
            v.push(lock(sp::all_versions(ALL, t), FIELDS | A));
            v.push(lock(sp::one_byte(VERSIONED, 4, true), FIELDS | A));
            v.push(lock(sp::string_fields(ALL), FIELDS | A));
            v.push(lock(sp::string_sets_x_lengths(ALL), FIELDS | A));
            v.push(lock(sp::byte_pairs(ALL, t), FIELDS | A));
            v.push(lock(sp::field_tuples(VERSIONED, t), FIELDS | A));
            v.push(lock(sp::code_x_edges(VERSIONED, if t { &[0, 3] } else { &[0] }), FIELDS | A));
            v.extend(locks(contents(ALL, false), FIELDS | A));
            v.push(lock(sp::code_pairs(ALL, false), FIELDS | A));
            v.extend(locks(lists(ALL, t), FIELDS | A));
        }
        "C15" => {
            v.push(lock(kinds(sp::versions_x_lengths(ALL, 4)), A));
            v.push(lock(sp::all_versions(ALL, t), A));
            v.push(lock(sp::string_fields(ALL), A));
            v.push(lock(sp::string_sets_x_lengths(ALL), A));
            v.extend(locks(lists(ALL, t), A));
            v.push(lock(sp::one_byte(ALL, 4, true), A));
            v.push(lock(sp::two_bytes(ALL, t), A));
            v.push(lock(sp::wide_fields(ALL), A));
            v.push(lock(sp::byte_pairs(ALL, t), A));
            v.push(lock(sp::field_tuples(ALL, t), A));
            v.push(lock(sp::code_x_edges(ALL, if t { &[0, 3] } else { &[0] }), A));
            v.push(lock(sp::types_x_handles(false), A));
            v.push(lock(sp::adjacent(ALL, t), A));
            v.push(lock(sp::string_pairs(ALL), A));
            v.push(lock(sp::code_pairs(ALL, false), A));
            v.push(lock(sp::bytes_x_versions(ALL), A));
            v.push(lock(sp::bytes_x_shapes(ALL), A));
            v.push(lock(sp::situated(ALL), A));
            v.push(lock(sp::string_areas_of(t), A));
            v.push(lock(sp::broken_strings(), A));
            v.push(lock(sp::string_lengths(), A));
            v.push(lock(sp::field_texts(ALL), A));
            v.push(lock(sp::related_strings(), A));
            v.push(lock(sp::string_counts(sp::LISTS), A));
            v.push(lock(sp::dict_strings(), A));
            v.extend(locks(sourced(ALL), A));
        }
        "C16" => {
            v.push(lock(sp::one_byte(ALL, 4, true), E));
            v.push(lock(sp::adjacent(&[4, 7, 17, 22], t), E));
            v.push(lock(sp::byte_pairs(ALL, t), E));
            v.push(lock(sp::field_tuples(ALL, false), E));
            v.push(lock(sp::code_x_edges(ALL, if t { &[0, 3] } else { &[0] }), E));
            v.push(lock(sp::enclosure_elements(), E | I));
            v.push(lock(sp::event_descriptors(), E | I));
            v.push(lock(sp::group_lists(), E | I));
            v.extend(locks(contents(ALL, false), E));
            v.push(lock(sp::code_pairs(ALL, false), E));
            let n = va::code_tables();
            let tables = Arc::new(va::code_tables());
            let tb = tables.clone();
            v.push(on(
                sp::numbers("all codes of all tables", n.iter().map(|x| x.1).sum()).each("", move |c, out| {
                    let mut d = c.clone();
                    let mut k = c.aux;
                    for (i, x) in n.iter().enumerate() {
                        if k < x.1 {
                            d.aux = (i as u64) << 32 | k;
                            return out(&d);
                        }
                        k -= x.1;
                    }
                }),
                move |c, _, st| va::code(c, st, &tb),
            ));
            v.push(on(sp::numbers("round trips", 65_536), |c, _, st| va::round_trip(c, st)));
            v.push(on(sp::peers(t), va::peer));
            v.push(on(sp::numbers("system management types", 65_536), |c, _, st| va::management(c, st)));
        }
        "C17" => {
            v.push(lock(sp::one_byte(ALL, 4, true), B));
            v.push(lock(sp::adjacent(&[4, 7, 17], t), B));
            v.push(lock(sp::byte_pairs(&[0, 2, 4, 7, 9, 13, 15, 17], t), B));
            v.push(lock(sp::field_tuples(&[0, 2, 4, 7, 9, 13, 15, 17], false), B));
            v.push(lock(sp::code_x_edges(&[0, 2, 4, 7, 9, 13, 15, 17], if t { &[0, 3] } else { &[0] }), B));
            v.push(lock(sp::wide_fields(&[0, 4, 7, 9, 15, 17]), B));
            v.push(lock(sp::versions_x_lengths(ALL, 4), B));
            v.push(lock(sp::bytes_x_versions(ALL), B));
            v.push(lock(sp::bytes_x_shapes(ALL), B));
            v.push(lock(sp::situated(ALL), B));
            v.extend(locks(sourced(&[0, 2, 4, 7, 9, 13, 15, 17]), B));
            let lay = Arc::new(va::layouts());
            let l2 = lay.clone();
            v.push(on(sp::real_bytes(), move |c, b, st| va::real_field(c, b, st, &lay, false)));
            v.push(on(sp::real_words(t), move |c, b, st| va::real_field(c, b, st, &l2, false)));
            v.push(on(
                sp::numbers("all 8-bit layouts", 9 * 65_536).each("", |c, out| {
                    if c.aux & 0xFFFF < 1 << (2 * (c.aux >> 16)) {
                        out(c)
                    }
                }),
                |c, _, st| va::layouts8(c, st),
            ));
            v.push(on(
                sp::numbers("wide layouts", 4 * 4 * 128 * 512).each("", |c, out| {
                    let (w, rest, pos, pat) = (c.aux >> 18, c.aux >> 16 & 3, c.aux >> 9 & 127, c.aux & 511);
                    if pos < 16 << w {
                        let mut d = c.clone();
                        d.aux = pat | pos << 16 | rest << 24 | w << 28;
                        out(&d);
                    }
                }),
                |c, _, st| va::layouts_wide(c, st),
            ));
        }
        "C18" => {
            let both = |c: &Case, b: &[u8], st: &mut Stats| -> R {
                ev::lockstep(c, b, I, st)?;
                let Some(e) = ev::entry(c) else { return Ok(()) };
                match e.structures(b).next() {
                    Some(Ok(x)) => ev::lists_cloned(&x).and_then(|_| ev::lists_protocol(&x)),
                    _ => Ok(()),
                }
            };
            for s in lists(ALL, t) {
                v.push(on(s, both));
            }
            v.push(on(sp::one_byte(&[3, 9, 11, 12, 13, 14, 15], 4, true), both));
            v.push(on(sp::versions_x_lengths(&[3, 9, 11, 12, 13, 14, 15], 4), both));
            v.push(on(sp::bytes_x_versions(&[3, 9, 11, 12, 13, 14, 15]).each("", move |c, out| {
                if t || matches!((c.major, c.minor), (2, 0 | 3) | (3, 1 | 4) | (4, 0)) {
                    out(c)
                }
            }), both));
            v.push(on(sp::bytes_x_shapes(&[3, 9, 11, 12, 13, 14, 15]).each("", move |c, out| {
                if t || c.buf.len() < 600 {
                    out(c)
                }
            }), both));
            v.push(on(sp::two_bytes(&[3, 9, 13, 14, 15], t), both));
            v.push(on(sp::situated(&[3, 9, 11, 12, 13, 14, 15]), both));
            v.push(on(sp::string_areas_of(t), both));
            v.push(on(only(sp::dict_strings(), &[11, 12, 13]), both));
            for s in sourced(&[3, 9, 14, 15]).into_iter().chain([sp::string_lengths(), sp::broken_strings(), sp::related_strings(), sp::string_ends(), sp::string_contents(2), sp::byte_pairs(&[3, 9, 13, 14, 15], t), sp::field_tuples(&[3, 9, 13, 14, 15], false)]) {
                v.push(on(s, both));
            }
            v.push(on(sp::peers(false), va::peer));
        }
        "C19" => {
            v.push(lock(sp::one_byte(&[0, 4, 7, 9, 15, 22], 4, true), D));
            v.push(lock(sp::adjacent(&[0, 4, 7, 9, 22], true), D));
            v.push(lock(sp::two_bytes(&[0, 4, 7, 9, 15, 22], t), D));
            v.push(lock(sp::byte_pairs(&[0, 4, 7, 9, 15, 22], t), D));
            v.push(lock(sp::field_tuples(&[0, 4, 7, 9, 15, 22], false), D));
            v.push(lock(sp::code_x_edges(&[0, 4, 7, 9, 15, 22], if t { &[0, 3] } else { &[0] }), D));
            v.push(lock(sp::all_versions(&[0, 4, 7, 9, 15, 22], t), D));
            v.push(lock(sp::wide_fields(&[0, 7, 15, 22]), D));
            v.push(lock(sp::slot_lists(), D));
            v.push(lock(sp::code_pairs(&[0, 4, 7, 9, 15, 22], false), D));
            v.push(lock(sp::bytes_x_versions(&[0, 4, 7, 9, 15, 22]), D));
            v.push(lock(sp::bytes_x_shapes(&[0, 4, 7, 9, 15, 22]), D));
            v.push(lock(sp::situated(&[0, 4, 7, 9, 15, 22]), D));
            v.extend(locks(sourced(&[0, 4, 7, 9, 15, 22]), D));
            v.push(on(sp::numbers("rom sizes", 65_537), |c, _, st| va::rom_size(c, st)));
            v.push(on(sp::numbers("16-bit quantities", 65_536), |c, _, st| va::words(c, st)));
            v.push(on(sp::numbers("32-bit cache sizes", 65_536), |c, _, st| va::size2(c, st)));
            v.push(on(sp::numbers("orderings of versions", 65_536), |c, _, st| va::order(c, st)));
            const METHODS: [u64; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x40, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF];
            v.push(on(
                sp::numbers("access addresses", 16 * 65_536).each("", |c, out| {
                    let mut d = c.clone();
                    d.aux = METHODS[(c.aux >> 16) as usize] << 16 | c.aux & 0xFFFF;
                    out(&d);
                }),
                |c, _, st| va::access(c, st),
            ));
            v.push(on(
                sp::numbers("access methods", 256 * 256).each("", |c, out| {
                    let mut d = c.clone();
                    d.aux = (c.aux >> 8) << 16 | c.aux & 0xFF | (c.aux & 0xFF) << 8;
                    out(&d);
                }),
                |c, _, st| va::access(c, st),
            ));
            if t {
                v.push(on(
                    sp::numbers("all access addresses", 8 * 65_536).each("", |c, out| {
                        let mut d = c.clone();
                        d.aux = [0, 1, 2, 3, 4, 5, 0x80, 0xFF][(c.aux >> 16) as usize] << 16 | c.aux & 0xFFFF;
                        out(&d);
                    }),
                    |c, _, st| va::access_all(c, st),
                ));
            }
        }
        "C20" => {
            v = locks(tables(t), W | X | K | FIELDS);
            v.push(lock(sp::versions_x_lengths(ALL, 4), X));
            v.push(lock(sp::all_versions(ALL, t), X));
            v.push(lock(sp::one_byte(ALL, 2, true), X));
            v.push(lock(sp::bytes_x_versions(ALL), X));
            v.push(lock(sp::bytes_x_shapes(ALL), X));
            v.push(lock(sp::situated(ALL), W | X | K | FIELDS));
            v.push(lock(sp::string_fields(ALL), X));
            v.push(lock(sp::string_sets_x_lengths(ALL), X));
            v.push(lock(sp::types_x_handles(t).each(", broken", |c, out| {
                // one byte short, and without its strings
                let mut d = c.clone();
                let l = d.buf[1] as usize;
                d.buf.truncate(l);
                d.buf.extend([0, 0]);
                d.len = d.buf.len() as u32;
                out(&d);
                if l > 4 {
                    d.buf[1] -= 1;
                    d.buf.remove(l - 1);
                    d.len = d.buf.len() as u32;
                    out(&d);
                }
            }), X));
            v.extend(locks(lists(ALL, t), X));
            v.push(lock(sp::raw_tables(7, VS), X));
            v.extend(locks(string_areas(t), X));
            v.push(lock(truncated(ALL), W | X));
            v.push(lock(sp::type_pairs(!t), W | X | K | FIELDS));
            v.extend(locks(sourced(ALL), X));
        }
        "C21" => {
            let n = va::enums();
            let count = n.len() as u64;
            let es = Arc::new(va::enums());
            let tx = Arc::new(va::texts());
            let (e1, t1, e2, t2) = (es.clone(), tx.clone(), es, tx);
            v.push(on(
                sp::numbers("texts of all codes", n.iter().map(|x| x.1).sum()).each("", move |c, out| {
                    let mut d = c.clone();
                    let mut k = c.aux;
                    for (i, x) in n.iter().enumerate() {
                        if k < x.1 {
                            d.aux = (i as u64) << 32 | k;
                            return out(&d);
                        }
                        k -= x.1;
                    }
                }),
                move |c, _, st| va::enum_text(c, st, &e1, &t1),
            ));
            v.push(on(sp::numbers("computed texts", 65_536), |c, _, st| va::formula_text(c, st, &|| VOLTAGE.store(true, Relaxed))));
            v.push(on(sp::numbers("computed texts of wide values and strings", 65_536), |c, _, st| va::wide_text(c, st)));
            if t {
                v.push(on(sp::numbers("texts of all double words", 65_536), |c, _, st| va::all_wide_texts(c, st)));
            }
            v.push(on(sp::numbers("pairwise distinct texts", count), move |c, _, st| va::distinct_texts(c, st, &e2, &t2)));
            let lay = Arc::new(va::layouts());
            let l2 = lay.clone();
            v.push(on(sp::real_bytes(), move |c, b, st| va::real_field(c, b, st, &lay, true)));
            v.push(on(sp::real_words(t), move |c, b, st| va::real_field(c, b, st, &l2, true)));
            v.extend(locks(vec![sp::walks(2, 1, VS), sp::string_fields(ALL), sp::versions_x_lengths(ALL, 1)], X));
        }
        "C22" => {
            for s in [sp::versions_x_lengths(ALL, if t { 4 } else { 2 }), sp::one_byte(ALL, if t { 2 } else { 1 }, false)] {
                v.push(on(s, ev::values));
            }
            for s in lists(ALL, false) {
                v.push(on(s, ev::values));
            }
            v.push(on(sp::walks(if t { 3 } else { 2 }, 1, VS), ev::values));
            v.push(on(sp::dict_strings(), ev::values));
            v.push(on(sp::related_strings(), ev::values));
            v.extend(sp::fresh_bytes(ALL).into_iter().map(|s| on(s, ev::values)).take(1));
            v.push(on(neighbours(t), ev::distinct));
            v.push(on(sp::list_neighbours(), ev::distinct));
            v.push(on(sp::string_edits(), ev::distinct));
            v.push(on(sp::walks(2, 0, &[(2, 1)]).each(", pairs of walks", |c, out| {
                if !c.v3 && c.len as usize == c.buf.len() && !c.buf.is_empty() {
                    out(c)
                }
            }), ev::walk_states));
            v.push(on(sp::layouts(ALL, t), ev::all_pairs));
            v.push(on(sp::numbers("values outside of structures", va::LEAVES), |c, _, st| va::leaves(c, st)));
            for s in [sp::ep_bytes(), sp::ep_numbers(), sp::ep_checksums()] {
                v.push(on(s, |_, b, st| ev::entry_values(b, st)));
            }
        }
        _ => {}
    }
    v
}
/// the buffer ends anywhere inside of the structure
fn truncated(types: &'static [u8]) -> Space {
    sp::all_versions(types, false).each(", cut off at every byte", |c, out| {
        if !((c.major, c.minor) == (2, 0) || (c.major, c.minor) == (3, 7)) {
            return;
        }
        let mut d = c.clone();
        for n in 0..c.buf.len() {
            d.buf.clear();
            d.buf.extend(&c.buf[..n]);
            for len in [n, c.buf.len(), 0xFFFF] {
                d.len = len as u32;
                out(&d);
            }
        }
    })
}
