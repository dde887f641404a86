//! Drives library entry points that the command line cannot reach with small
//! inputs (sort buffers of a few hundred bytes) and exposes every route by
//! which two lines can be compared.
//!
//! Each check builds only the part it needs, chosen by a feature.
#![allow(unused_imports, dead_code)]
#[cfg(feature = "comp")]
use cdx::comp::{CompList, Item};
#[cfg(any(feature = "comp", feature = "spill"))]
use cdx::comp::LineCompList;
#[cfg(feature = "text")]
use cdx::num::{Junk, JunkType, JunkVal};
use cdx::prelude::*;
#[cfg(feature = "spill")]
use cdx::sort::Sorter;
#[cfg(feature = "text")]
use cdx::text::{Case, Text};
#[cfg(feature = "reader")]
use cdx::util::{FileLocList, HeaderChecker, HeaderMode};
use cdx::util::{TextFileMode, TextLine};
use std::io::Read as _;

fn ch(o: Ordering) -> char {
    match o {
        Ordering::Less => '<',
        Ordering::Equal => '=',
        Ordering::Greater => '>',
    }
}

#[cfg(feature = "spill")]
/// spill ALLOC UNIQUE nkeys KEY... FILE...
fn spill(a: &[String]) -> Result<()> {
    let alloc: usize = a[0].parse().unwrap();
    let unique = a[1] == "1";
    let nk: usize = a[2].parse().unwrap();
    let mut cmp = LineCompList::new();
    for k in &a[3..3 + nk] {
        cmp.add(k)?;
    }
    let mut s = Sorter::new(cmp, alloc, unique);
    let mut w: Vec<u8> = Vec::new();
    for f in &a[3 + nk..] {
        s.add_file(f, &mut w)?;
    }
    s.finalize(&mut w)?;
    std::io::stdout().write_all(&w)?;
    Ok(())
}

#[cfg(feature = "comp")]
/// comp nkeys KEY... : lines on stdin; prints one row of route results per ordered pair
fn comp(a: &[String]) -> Result<()> {
    let nk: usize = a[0].parse().unwrap();
    let mut cmp = LineCompList::new();
    for k in &a[1..1 + nk] {
        cmp.add(k)?;
    }
    let mut data = Vec::new();
    std::io::stdin().read_to_end(&mut data)?;
    let mut lines: Vec<&[u8]> = Vec::new();
    for l in data.split_inclusive(|c| *c == b'\n') {
        lines.push(l);
    }
    let names: Vec<String> = (1..=9).map(|x| format!("c{x}")).collect();
    let n2: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    cmp.lookup(&n2)?;
    let mode = TextFileMode::default();
    let mut texts = Vec::new();
    let mut items = Vec::new();
    let mut items2 = Vec::new();
    let mut off = 0usize;
    for l in &lines {
        let mut t = TextLine::new();
        let mut src = *l;
        t.read(&mut src)?;
        t.split(&mode);
        let mut it = Item::new();
        it.offset = off as u32;
        it.size_plus = l.len() as u32;
        let mut it2 = it;
        cmp.fill_cache_line(&mut it, &data);
        cmp.fill_cache_cols(&mut it2, &t);
        items.push(it);
        items2.push(it2);
        texts.push(t);
        off += l.len();
    }
    let mut out = String::new();
    for i in 0..lines.len() {
        for j in 0..lines.len() {
            out.push(ch(cmp.comp_lines(lines[i], lines[j])));
            out.push(ch(cmp.comp_cols(&texts[i], &texts[j])));
            out.push(ch(cmp.comp_items(&data, &items[i], &items[j])));
            out.push(ch(cmp.comp_items(&data, &items2[i], &items2[j])));
            out.push(if cmp.equal_lines(lines[i], lines[j]) { 'e' } else { 'n' });
            out.push(if cmp.equal_cols(&texts[i], &texts[j]) { 'e' } else { 'n' });
            out.push(if cmp.equal_items(&data, &items[i], &items[j]) { 'e' } else { 'n' });
            out.push(if cmp.equal_items(&data, &items2[i], &items2[j]) { 'e' } else { 'n' });
            out.push('\n');
        }
    }
    print!("{out}");
    Ok(())
}

/// value METHOD... : values on stdin, one per line; compares single values by every route
#[cfg(feature = "comp")]
fn value(a: &[String]) -> Result<()> {
    let mut data = Vec::new();
    std::io::stdin().read_to_end(&mut data)?;
    let mut vals: Vec<&[u8]> = data.split(|c| *c == b'\n').collect();
    vals.pop();
    let mut out = String::new();
    let mut lc = LineCompList::new();
    let mut c = CompList::new();
    for m in a {
        c.add(m)?;
        lc.add(&format!("1,{m}"))?;
    }
    lc.lookup(&["c1"])?;
    let mode = TextFileMode::default();
    for l in &vals {
        // one part for every comparison
        let whole = vec![*l; a.len()].join(&1u8);
        c.set(&whole, 1)?;
        lc.set(&whole, 1)?;
        if a.len() > 1 {
            // too few or too many parts must be refused
            let more = vec![*l; a.len() + 1].join(&1u8);
            let less = vec![*l; a.len() - 1].join(&1u8);
            for x in [more, less] {
                let mut c2 = CompList::new();
                let mut l2 = LineCompList::new();
                for m in a {
                    c2.add(m)?;
                    l2.add(&format!("1,{m}"))?;
                }
                if c2.set(&x, 1).is_ok() || l2.set(&x, 1).is_ok() {
                    println!("wrong number of parts accepted");
                }
            }
        }
        for r in &vals {
            let mut line = r.to_vec();
            line.push(b'\n');
            let mut t = TextLine::new();
            let mut src = &line[..];
            t.read(&mut src)?;
            t.split(&mode);
            out.push(ch(c.comp(l, r)));
            out.push(ch(c.comp_self(r)));
            out.push(ch(lc.comp_self_line(&line)));
            out.push(ch(lc.comp_self_cols(&t)));
            out.push(if c.equal(l, r) { 'e' } else { 'n' });
            out.push(if c.equal_self(r) { 'e' } else { 'n' });
            out.push(if lc.equal_self_line(&line) { 'e' } else { 'n' });
            out.push(if lc.equal_self_cols(&t) { 'e' } else { 'n' });
            out.push('\n');
        }
    }
    print!("{out}");
    Ok(())
}

/// header MODE FILE... : what the header checker says about the first line of each file
#[cfg(feature = "reader")]
fn header(a: &[String], through_reader: bool) -> Result<()> {
    let mut c = HeaderChecker::from_mode(a[0].parse::<HeaderMode>()?);
    for f in &a[1..] {
        let r = if through_reader {
            let r = Reader::new_open(f, &TextFileMode::default())?;
            c.check_file(&r, f)
        } else {
            let data = std::fs::read(f)?;
            let n = data.iter().position(|c| *c == b'\n').map_or(data.len(), |x| x + 1);
            c.check(&data[..n], f)
        };
        match r {
            Ok(x) => println!("{x}"),
            Err(e) => {
                println!("refused");
                return Err(e);
            }
        }
    }
    Ok(())
}

/// reader LOOKBACK MODE REUSE FILE... : everything a Reader says about every line
#[cfg(feature = "reader")]
fn reader(a: &[String]) -> Result<()> {
    let look: usize = a[0].parse().unwrap();
    let mode = TextFileMode::new(&a[1])?;
    let reuse = a[2] == "1";
    let mut loc = FileLocList::new();
    loc.push("line,bytes,name")?;
    let mut w = std::io::BufWriter::new(std::io::stdout());
    let mut old: Option<Reader> = None;
    for f in &a[3..] {
        let mut r = match old.take() {
            Some(mut r) if reuse => {
                r.open(f)?;
                r
            }
            _ => Reader::new_open_with(f, look, &mode)?,
        };
        writeln!(w, "F {} {} {}", r.is_empty(), r.is_done(), r.has_header())?;
        if !r.is_empty() && !(r.is_done() && !r.has_header()) {
            writeln!(w, "H {:?}", r.names())?;
        }
        while !r.is_done() {
            write!(w, "L {} ", r.line_number())?;
            loc.write_data(&mut w, b' ', r.loc())?;
            writeln!(w)?;
            writeln!(w, "C {:?}", r.curr_line().vec())?;
            writeln!(w, "T {:?}", r.curr_nl())?;
            for k in 0..=look {
                writeln!(w, "P {:?}", r.prev_line(k).line())?;
            }
            r.getline()?;
        }
        old = Some(r);
    }
    w.flush()?;
    Ok(())
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// everything the Text trait says about a and b
#[cfg(feature = "text")]
macro_rules! text_of {
    ($a:expr, $b:expr, $n:expr, $d:expr, $out:expr) => {{
        let (a, b) = ($a, $b);
        let lower = a.new_lower();
        let low = &lower[..];
        let mut dst = b.new_lower();
        a.assign_lower(&mut dst);
        let mut dst2 = b.new_upper();
        a.assign_upper(&mut dst2);
        let t = |x: bool| if x { "1" } else { "0" }.to_string();
        let o: &mut Vec<String> = $out;
        o.push(t(a.glob(b, Case::Sens)));
        o.push(t(a.glob(b, Case::Insens)));
        o.push(t(a.equal_insens(b)));
        o.push(t(low.equal_insens_quick(b)));
        o.push(ch(a.cmp_insens(b)).to_string());
        o.push(ch(low.cmp_insens_quick(b)).to_string());
        o.push(hex((low).as_ref()));
        o.push(hex(dst.as_ref()));
        o.push(hex(a.new_upper().as_ref()));
        o.push(hex(dst2.as_ref()));
        o.push(hex((a.trimw()).as_ref()));
        o.push(hex((a.trimw_start()).as_ref()));
        o.push(Text::num_chars(a).to_string());
        o.push(hex((a.tail_u8($n, $d)).as_ref()));
        o.push(hex((a.tail_path_u8($n, $d)).as_ref()));
        let dc = a.ascii($d);
        o.push(hex((a.head($n, dc)).as_ref()));
        o.push(hex((a.head_path($n, dc)).as_ref()));
        let (v, r) = a.to_usize();
        o.push(format!("{v},{}", r.len()));
        let (v, r) = a.to_isize();
        o.push(format!("{v},{}", r.len()));
        let (v, r) = a.to_f64();
        o.push(format!("{:016x},{}", v.to_bits(), r.len()));
        let w = |x: Option<String>| x.unwrap_or_else(|| "bad".to_string());
        o.push(w(a.to_usize_whole(b"", "x").ok().map(|x| x.to_string())));
        o.push(w(a.to_isize_whole(b"", "x").ok().map(|x| x.to_string())));
        o.push(w(a.to_f64_whole(b"", "x").ok().map(|x| format!("{:016x}", x.to_bits()))));
        for jt in [JunkType::Any, JunkType::Trailing, JunkType::None] {
            for jv in [JunkVal::Min, JunkVal::Max] {
                let j = Junk { junk_type: jt, junk_val: jv };
                o.push(a.to_usize_junk(&j).to_string());
                o.push(a.to_isize_junk(&j).to_string());
                o.push(format!("{:016x}", a.to_f64_junk(&j).to_bits()));
            }
        }
    }};
}

/// text: lines of "hex(a) hex(b) n delim"; the functions of the Text trait on bytes, and on str if it is one
#[cfg(feature = "text")]
fn text() -> Result<()> {
    let mut data = String::new();
    std::io::stdin().read_to_string(&mut data)?;
    for l in data.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let (a, b) = (unhex(p[0]), unhex(p[1]));
        let n: usize = p[2].parse().unwrap();
        let d: u8 = p[3].parse().unwrap();
        let mut out = Vec::new();
        {
            let (a, b): (&[u8], &[u8]) = (&a, &b);
            text_of!(a, b, n, d, &mut out);
        }
        println!("b {}", out.join(" "));
        let mut out = Vec::new();
        if let (Ok(a), Ok(b)) = (std::str::from_utf8(&a), std::str::from_utf8(&b)) {
            text_of!(a, b, n, d, &mut out);
            println!("s {}", out.join(" "));
        }
    }
    Ok(())
}

#[cfg(any(feature = "cols", feature = "match"))]
fn list(s: &str) -> Vec<String> {
    if s == "-" {
        return Vec::new();
    }
    s.split(',').map(|x| String::from_utf8(unhex(x)).unwrap()).collect()
}

/// column sets and scoped values, one case per line of stdin
#[cfg(feature = "cols")]
fn cols() -> Result<()> {
    use cdx::column::{get_col, ColumnSet, OutCol, ScopedValues};
    let mut inp = String::new();
    std::io::stdin().read_to_string(&mut inp)?;
    for l in inp.lines() {
        let p: Vec<Vec<String>> = l.split(' ').map(list).collect();
        let names: Vec<&str> = p[0].iter().map(|x| x.as_str()).collect();
        let rev: Vec<&str> = names.iter().rev().copied().collect();
        let line: Vec<&str> = p[3].iter().map(|x| x.as_str()).collect();
        let rest = p[4][0].as_str();
        let mut o: Vec<String> = Vec::new();
        let nums = |v: Vec<usize>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let full = |v: Vec<OutCol>| v.iter().map(|x| format!("{}:{}", x.num, hex(x.name.as_bytes()))).collect::<Vec<_>>().join(",");
        let mut set = ColumnSet::new();
        let mut ok = true;
        for x in &p[1] {
            ok = ok && set.add_yes(x).is_ok();
        }
        for x in &p[2] {
            ok = ok && set.add_no(x).is_ok();
        }
        o.push(format!("add={ok}"));
        o.push(format!("empty={}", set.is_empty()));
        let mode = TextFileMode::default();
        let joined = line.join("\t") + "\n";
        let mut tl = TextLine::new();
        let mut src = joined.as_bytes();
        tl.read(&mut src)?;
        tl.split(&mode);
        let mut sl = cdx::util::StringLine::new();
        let mut src = joined.as_bytes();
        sl.read(&mut src)?;
        sl.split(b'\t');
        for round in 0..3 {
            // before any lookup, with the names, and again with the names in another order
            if round > 0 {
                let r = set.lookup(if round == 1 { &names } else { &rev });
                o.push(format!("lookup={}", r.is_ok()));
                if r.is_err() {
                    continue;
                }
                o.push(format!("nums={}", nums(set.get_cols_num())));
                o.push(format!("full={}", full(set.get_cols().clone())));
            }
            let mut res: Vec<&str> = vec!["junk"];
            let r = set.select(&line, &mut res);
            o.push(format!("select={}", if r.is_ok() { hex(res.join("\n").as_bytes()) } else { "err".to_string() }));
            let r = set.select_sloppy(&line, &rest, &mut res);
            o.push(format!("select_sloppy={}", if r.is_ok() { hex(res.join("\n").as_bytes()) } else { "err".to_string() }));
            let mut w: Vec<u8> = Vec::new();
            let r = set.write(&mut w, &line, "::");
            o.push(format!("write={}", if r.is_ok() { hex(&w) } else { "err".to_string() }));
            w.clear();
            let r = set.write2(&mut w, &tl, b';');
            o.push(format!("write2={}", if r.is_ok() { hex(&w) } else { "err".to_string() }));
            w.clear();
            let r = set.write3(&mut w, &tl, &mode);
            o.push(format!("write3={}", if r.is_ok() { hex(&w) } else { "err".to_string() }));
            w.clear();
            let r = set.write3s(&mut w, &sl, b';');
            o.push(format!("write3s={}", if r.is_ok() { hex(&w) } else { "err".to_string() }));
            w.clear();
            let r = set.write_sloppy(&line, rest, &mut w);
            o.push(format!("write_sloppy={}", if r.is_ok() { hex(&w) } else { "err".to_string() }));
        }
        for x in &p[1] {
            o.push(format!("lookup_cols={}", ColumnSet::lookup_cols(x, &names).map_or("err".to_string(), nums)));
            o.push(format!("lookup_cols_full={}", ColumnSet::lookup_cols_full(x, &names).map_or("err".to_string(), full)));
            o.push(format!("ranges={}", ColumnSet::ranges(&names, x).map_or("err".to_string(), full)));
            o.push(format!("lookup1={}", ColumnSet::lookup1(x, &names).map_or("err".to_string(), |n| n.to_string())));
            o.push(format!("lookup_col={}", ColumnSet::lookup_col(&names, x).map_or("err".to_string(), |n| n.to_string())));
        }
        for i in 0..line.len() + 2 {
            o.push(format!("get_col={}", hex(get_col(joined.as_bytes(), i, b'\t'))));
        }
        let mut sv = ScopedValues::new();
        sv.set_default(&p[5][0]);
        let mut ok = true;
        for x in p[5][1..].chunks(2) {
            ok = ok && sv.add2(&x[0], &x[1]).is_ok();
        }
        o.push(format!("sv={ok}"));
        o.push(format!("sv_empty={}", sv.is_empty()));
        for round in 0..2 {
            let r = sv.lookup(if round == 0 { &names } else { &rev });
            o.push(format!("sv_lookup={}", r.is_ok()));
            if r.is_err() {
                continue;
            }
            for i in 0..names.len() + 2 {
                o.push(format!("sv_get={},{}", hex(sv.get(i).as_bytes()), sv.has_value(i)));
            }
            let r = sv.make_ints();
            o.push(format!("ints={}", r.is_ok()));
            if r.is_ok() {
                for i in 0..names.len() + 2 {
                    o.push(format!("sv_int={}", sv.get_int(i)));
                }
            }
            let r = sv.make_floats();
            o.push(format!("floats={}", r.is_ok()));
            if r.is_ok() {
                for i in 0..names.len() + 2 {
                    o.push(format!("sv_float={:016x}", sv.get_float(i).to_bits()));
                }
            }
        }
        println!("{}", o.join(" "));
    }
    Ok(())
}

/// matchers by every route, one case per line of stdin; what goes to stderr is bracketed by @@ lines
#[cfg(feature = "match")]
fn matches() -> Result<()> {
    use cdx::matcher::{Combiner, Determiner, LineMatch, LineMatcherList, Match, MatchMaker, Matcher, MatcherList};
    use cdx::util::Tri;
    let bit = |b: bool| if b { '1' } else { '0' };
    let bytes = |s: &str| -> Vec<Vec<u8>> {
        if s == "-" {
            Vec::new()
        } else {
            s.split(',').map(unhex).collect()
        }
    };
    let comb = |s: &str| if s == "and" { Combiner::And } else { Combiner::Or };
    let routes = |m: &Matcher, v: &[u8]| -> String {
        let mut o = String::new();
        o.push(std::str::from_utf8(v).map_or('-', |x| bit(m.smatch(x))));
        o.push(bit(m.umatch(v)));
        o.push(bit(m.lossy_match(v)));
        o.push(m.do_match(v).map_or('E', bit));
        o.push(bit(m.do_match_safe(v)));
        o
    };
    let mut inp = String::new();
    std::io::stdin().read_to_string(&mut inp)?;
    for (n, l) in inp.lines().enumerate() {
        let p: Vec<&str> = l.split(' ').collect();
        let mut o: Vec<String> = Vec::new();
        match p[0] {
            "M" => {
                let method = &list(p[1])[0];
                let pat = &list(p[2])[0];
                let m = MatchMaker::make2(method, pat)?;
                let whole = MatchMaker::make(&format!("{method},{pat}"))?;
                let copy = m.clone();
                let copy2 = copy.clone();
                for v in bytes(p[3]) {
                    o.push(format!("{}/{}/{}/{}", routes(&m, &v), routes(&whole, &v), routes(&copy, &v), routes(&copy2, &v)));
                }
            }
            "L" => {
                let mut m = MatcherList::new_with(comb(p[1]));
                let specs = if p[2] == "-" { Vec::new() } else { list(p[2]) };
                for x in &specs {
                    m.push(x)?;
                }
                o.push(format!("{}", bit(m.is_empty())));
                for (i, v) in bytes(p[3]).iter().enumerate() {
                    let mut r = String::new();
                    r.push(bit(m.umatch(v)));
                    r.push(bit(Match::umatch(&m, v)));
                    for negate in [false, true] {
                        eprintln!("@@ {n} {i} u{}", bit(negate));
                        r.push(bit(m.verbose_umatch(v, negate)));
                    }
                    if let Ok(s) = std::str::from_utf8(v) {
                        r.push(bit(m.smatch(s)));
                        r.push(bit(Match::smatch(&m, s)));
                        for negate in [false, true] {
                            eprintln!("@@ {n} {i} s{}", bit(negate));
                            r.push(bit(m.verbose_smatch(s, negate)));
                            eprintln!("@@ {n} {i} t{}", bit(negate));
                            r.push(bit(Match::verbose_smatch(&m, s, negate)));
                        }
                    }
                    o.push(r);
                }
            }
            "D" => {
                let d = Determiner::new(&list(p[1])[0])?;
                let top: usize = p[2].parse().unwrap();
                for yes in 0..=top {
                    let mut r = String::new();
                    for no in 0..=top {
                        r.push(bit(d.match_final(yes, no)));
                        r.push(match d.match_mid(yes, no) {
                            Tri::Yes => 'Y',
                            Tri::No => 'N',
                            Tri::Maybe => 'M',
                        });
                    }
                    o.push(r);
                }
            }
            _ => {
                let names = list(p[2]);
                let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
                let rev: Vec<&str> = names.iter().rev().copied().collect();
                let mut m = LineMatcherList::new_with(comb(p[1]));
                for x in &list(p[3]) {
                    m.push(x)?;
                }
                let mode = TextFileMode::default();
                for round in 0..2 {
                    if round == 1 {
                        m.lookup(&rev)?;
                    }
                    m.lookup(&names)?;
                    for (i, v) in bytes(p[4]).iter().enumerate() {
                        let mut tl = TextLine::new();
                        let mut whole = v.clone();
                        whole.push(b'\n');
                        let mut src = whole.as_slice();
                        tl.read(&mut src)?;
                        tl.split(&mode);
                        let mut r = String::new();
                        r.push(bit(m.ok_and(&tl)));
                        r.push(bit(m.ok_or(&tl)));
                        r.push(bit(m.ok_tagged(&tl, Combiner::And)));
                        r.push(bit(m.ok_tagged(&tl, Combiner::Or)));
                        r.push(bit(m.ok(&tl)));
                        r.push(bit(LineMatch::ok(&mut m, &tl)));
                        for k in ["va", "vo", "ta", "to", "v", "d"] {
                            eprintln!("@@ {n} {i} {k}{round}");
                            r.push(bit(match k {
                                "va" => m.ok_verbose_and(&tl, i, "f"),
                                "vo" => m.ok_verbose_or(&tl, i, "f"),
                                "ta" => m.ok_verbose_tagged(&tl, Combiner::And, i, "f"),
                                "to" => m.ok_verbose_tagged(&tl, Combiner::Or, i, "f"),
                                "v" => m.ok_verbose(&tl, i, "f"),
                                _ => LineMatch::ok_verbose(&mut m, &tl, i, "f"),
                            }));
                        }
                        o.push(r);
                    }
                }
            }
        }
        println!("{}", o.join(" "));
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = match a[1].as_str() {
        #[cfg(feature = "spill")]
        "spill" => spill(&a[2..]),
        #[cfg(feature = "comp")]
        "comp" => comp(&a[2..]),
        #[cfg(feature = "comp")]
        "value" => value(&a[2..]),
        #[cfg(feature = "reader")]
        "header" => header(&a[2..], false),
        #[cfg(feature = "reader")]
        "headerf" => header(&a[2..], true),
        #[cfg(feature = "reader")]
        "reader" => reader(&a[2..]),
        #[cfg(feature = "text")]
        "text" => text(),
        #[cfg(feature = "cols")]
        "cols" => cols(),
        #[cfg(feature = "match")]
        "match" => matches(),
        _ => {
            eprintln!("bad subcommand");
            std::process::exit(77);
        }
    };
    if let Err(e) = r {
        eprintln!("Error {e}");
        std::process::exit(1);
    }
}
