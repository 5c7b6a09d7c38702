//! C30: escape sequences appear where colours are wanted and nowhere else; the colours are those named.
use crate::checks::faults::{source_words, terminals};
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;

const NAMES: [(&str, u32); 16] = [
    ("Black", 0),
    ("DarkBlue", 4),
    ("DarkGreen", 2),
    ("DarkCyan", 6),
    ("DarkRed", 1),
    ("DarkMagenta", 5),
    ("DarkYellow", 3),
    ("Gray", 7),
    ("DarkGray", 8),
    ("Blue", 12),
    ("Green", 10),
    ("Cyan", 14),
    ("Red", 9),
    ("Magenta", 13),
    ("Yellow", 11),
    ("White", 15),
];

/// The text with the foreground colour (of the usual 16) of every character.  Any other sequence than
/// the choice of a foreground colour, intensity and the reset is an error, as is a line that ends with a colour on.
fn cells(s: &str) -> Result<Vec<Vec<(char, Option<u32>)>>, String> {
    let mut lines = vec![vec![]];
    let (mut base, mut bold): (Option<u32>, bool) = (None, false);
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\x1b' => {
                if it.next() != Some('[') {
                    return Err("an escape sequence that is no control sequence".into());
                }
                let mut e = String::new();
                let mut end = None;
                for d in it.by_ref() {
                    if ('\x40'..='\x7e').contains(&d) {
                        end = Some(d);
                        break;
                    }
                    e.push(d);
                }
                if end != Some('m') {
                    return Err(format!("the control sequence {e:?}{end:?} does not set a colour"));
                }
                let n: Vec<u32> = e.split(';').map(|x| if x.is_empty() { Ok(0) } else { x.parse() }).collect::<Result<_, _>>().map_err(|_| format!("the sequence {e:?}"))?;
                let mut i = 0;
                while i < n.len() {
                    match n[i] {
                        0 => (base, bold) = (None, false),
                        1 => bold = true,
                        22 => bold = false,
                        39 => base = None,
                        x @ 30..=37 => base = Some(x - 30),
                        x @ 90..=97 => base = Some(x - 90 + 8),
                        38 if n.get(i + 1) == Some(&5) && n.len() > i + 2 => {
                            base = Some(n[i + 2]);
                            i += 2;
                        },
                        x => return Err(format!("the sequence {e:?} ({x}) is no choice of a text colour")),
                    }
                    i += 1;
                }
            },
            '\n' => {
                if base.is_some() || bold {
                    return Err("a colour is still on at the end of a line".into());
                }
                lines.push(vec![]);
            },
            c if (c as u32) < 32 || c as u32 == 127 => return Err(format!("the control character {:?}", c)),
            c => {
                let col = base.map(|b| if bold && b < 8 { b + 8 } else { b });
                lines.last_mut().unwrap().push((c, col));
            },
        }
    }
    if base.is_some() || bold {
        return Err("a colour is still on at the end".into());
    }
    Ok(lines)
}

/// The lines of the colour test.
fn colour_test(o: &Out, on: bool) -> Verdict {
    if o.status != 0 {
        return Err(format!("the colour test ends with status {}", status_text(o.status)));
    }
    let lines = cells(&o.out)?;
    let want: String = NAMES.iter().map(|(n, _)| format!("{n:<20}")).collect();
    let text: Vec<String> = lines.iter().map(|l| l.iter().map(|c| c.0).collect()).collect();
    if text.len() != 2 || text[0].trim_end() != want.trim_end() || !text[1].is_empty() {
        return Err(format!("the colour test shows {:?}, not the sixteen names in columns of twenty", text));
    }
    for (i, (name, col)) in NAMES.iter().enumerate() {
        for c in lines[0].iter().skip(i * 20).take(name.len()) {
            let want = if on { Some(*col) } else { None };
            if c.1 != want {
                return Err(format!("{name} is shown in the colour {:?}, not {want:?}", c.1));
            }
        }
    }
    Ok(17)
}

/// Well-formed coloured output: every line that is not empty has a colour.
fn coloured(o: &Out) -> Verdict {
    let lines = cells(&o.out)?;
    let mut n = 0;
    for l in &lines {
        let text: String = l.iter().map(|c| c.0).collect();
        let label = ["Address:", "Netmask:", "Wildcard:", "Network:", "HostMin:", "HostMax:", "Broadcast:"].iter().any(|x| text.starts_with(x));
        if label && l.len() > 40 && l.iter().all(|c| c.1.is_none()) {
            return Err("a line of a block has no colour although colours are on".into());
        }
        n += 1;
    }
    Ok(n)
}

fn none(what: &str, text: &str) -> Result<(), String> {
    match text.find('\x1b') {
        None => Ok(()),
        Some(i) => Err(format!("an escape sequence on {what}: {:?}", clip(&text[i..], 60))),
    }
}

/// What the surroundings say: Some(on), or nothing definite.
fn wanted(terminal: bool, term: Option<&str>, no_color: Option<&str>, clicolor: Option<&str>, force: Option<&str>) -> Option<bool> {
    let forced = match force {
        None | Some("0") => false,
        Some("") => return None,
        Some(_) => true,
    };
    if no_color == Some("") || clicolor == Some("") {
        return None;
    }
    if forced {
        return if no_color.is_some() || clicolor == Some("0") { None } else { Some(true) };
    }
    if !terminal || no_color.is_some() || clicolor == Some("0") || term == Some("dumb") {
        return Some(false);
    }
    match term {
        None | Some("") => None,
        Some(_) => Some(true),
    }
}

pub fn c30(t: &mut Tasks) {
    let th = t.thorough;
    // the surroundings
    let shows: Vec<Args> = vec![args(&["192.168.2.5/24"]), args(&["2001:db8::5/64", "10.0.0.1/255.0.255.0"]), args(&["-s", "10.0.0.0/24", "100", "20"]), args(&["-s", "10.0.0.0/24", "1000"]), args(&["-r", "10.0.0.0/24", "25"]), args(&["-r", "2001:db8::/64", "66"]), args(&["--color-test"])];
    let plain: Vec<Args> = vec![
        args(&["-m", "10.0.0.0/25", "10.0.0.128/25"]),
        args(&["-m", "2001:db8::/64", "10::/7"]),
        args(&["-d", "10.0.0.1", "10.0.0.9"]),
        args(&["-d", "::1", "::9"]),
        args(&["-e", "10.0.0.0/30", "::/-::5"]),
        args(&[]),
        args(&["--help"]),
        args(&["nonsense"]),
        args(&["-e", "10.0.0.0/31", "nonsense", "::/127"]),
        args(&["-s", "10.0.0.0/24", "x"]),
        args(&["-r", "10.0.0.0/24", "::"]),
        args(&["-m", "10.0.0.0/24", "::/64"]),
        args(&["-d", "10.0.0.0", "::"]),
    ];
    let opt = |v: &[&'static str]| -> Vec<Option<&'static str>> { std::iter::once(None).chain(v.iter().map(|x| Some(*x))).collect() };
    let forces = opt(&["0", "1", "yes", ""]);
    let nos = opt(&["1", "0", ""]);
    let clis = opt(&["0", "1", "yes", ""]);
    let terms = if th { opt(&["dumb", "xterm", "xterm-256color", "vt100", "linux", "screen", "ansi", ""]) } else { opt(&["dumb", "xterm", "linux", ""]) };
    t.bound(format!("surroundings: CLICOLOR_FORCE in {forces:?}, NO_COLOR in {nos:?}, CLICOLOR in {clis:?}, TERM in {terms:?}, every combination of terminals as standard input, output and error; {} invocations", shows.len() + plain.len()));
    for force in forces {
        for no in nos.clone() {
            for cli in clis.clone() {
                for term in terms.clone() {
                    let (shows, plain) = (shows.clone(), plain.clone());
                    t.add(format!("FORCE {force:?} NO {no:?} CLICOLOR {cli:?} TERM {term:?}"), move |r| {
                        let bin = r.sh.bin.join("ripcalc");
                        let mut env: Vec<(&str, String)> = vec![];
                        for (k, v) in [("CLICOLOR_FORCE", force), ("NO_COLOR", no), ("CLICOLOR", cli), ("TERM", term)] {
                            if let Some(v) = v {
                                env.push((k, v.into()));
                            }
                        }
                        let set: String = env.iter().map(|(k, v)| format!("{k}={} ", quote(v))).collect();
                        for (k, a) in shows.iter().chain(&plain).enumerate() {
                            let off = r.exec_with(&bin, a, &[], TIMEOUT);
                            let on = r.exec(Env::Color, a);
                            for m in 0..8u32 {
                                if r.stopped() {
                                    return;
                                }
                                // the modes without colours: a part of the combinations will do
                                if k >= shows.len() && !th && [1, 3, 4, 6].contains(&m) {
                                    continue;
                                }
                                let which = [m & 1 != 0, m & 2 != 0, m & 4 != 0];
                                let o = if m == 0 {
                                    r.exec_with(&bin, a, &env, TIMEOUT)
                                } else {
                                    match terminals(r, a, &env, (24, 200), which) {
                                        Some(o) => o,
                                        None => {
                                            r.note("no terminal could be opened; that part is left out".into());
                                            continue;
                                        },
                                    }
                                };
                                r.book(hash_of(&(a, &env, m)), 1);
                                let want = wanted(which[1], term, no, cli, force);
                                let v = (|| {
                                    if o.status != off.status {
                                        return Err(format!("status {} instead of {}", status_text(o.status), status_text(off.status)));
                                    }
                                    none("standard error", &o.err)?;
                                    if k >= shows.len() {
                                        none("the standard output of a mode without colours", &o.out)?;
                                    }
                                    let is = match (o.out == off.out, o.out == on.out) {
                                        (true, _) => false,
                                        (_, true) => true,
                                        _ => return Err("neither the output without colours nor the one with colours".into()),
                                    };
                                    match want {
                                        Some(w) if k < shows.len() && w != is => Err(format!("colours are {}, but they are to be {}", if is { "on" } else { "off" }, if w { "on" } else { "off" })),
                                        _ => Ok(()),
                                    }
                                })();
                                if let Err(e) = v {
                                    let names: Vec<&str> = ["input", "output", "error"].iter().enumerate().filter(|(i, _)| which[*i]).map(|(_, n)| *n).collect();
                                    let cmd = show_runs(&[(Env::Plain, a.clone())]);
                                    r.violation(e, vec![(Env::Plain, a.clone())], vec![off, o], format!("# terminals as standard {}\n$ {set}{cmd}", if names.is_empty() { "nothing".into() } else { names.join(" and ") }));
                                    return;
                                }
                            }
                        }
                    });
                }
            }
        }
    }
    // no word stands for another kind of terminal
    for part in 0..8usize {
        t.add(format!("words as TERM, part {part}"), move |r| {
            let bin = r.sh.bin.join("ripcalc");
            let show = vec![args(&["192.168.2.5/24", "2001:db8::5/64"]), args(&["-s", "10.0.0.0/24", "100", "20"])];
            let mut words = source_words(r);
            words.extend(["xterm-color", "screen-256color", "tmux", "tmux-256color", "rxvt", "rxvt-unicode", "konsole", "alacritty", "xterm-kitty", "foot", "vt52", "vt220", "cygwin", "putty", "sun", "wsvt25", "eterm-color", "emacs", "unknown", "network"].map(String::from));
            words.retain(|w| w != "dumb" && !w.is_empty());
            words.sort();
            words.dedup();
            for w in words.iter().skip(part).step_by(8) {
                for a in &show {
                    let on = r.exec(Env::Color, a);
                    let off = r.exec_with(&bin, a, &[], TIMEOUT);
                    let forced = r.exec_with(&bin, a, &[("CLICOLOR_FORCE", "1".into()), ("TERM", w.clone())], TIMEOUT);
                    let piped = r.exec_with(&bin, a, &[("TERM", w.clone())], TIMEOUT);
                    let shown = terminals(r, a, &[("TERM", w.clone())], (24, 200), [false, true, false]);
                    r.book(hash_of(&(a, w)), 3);
                    for (what, got, want) in [("with CLICOLOR_FORCE=1", Some(forced), &on), ("not on a terminal", Some(piped), &off), ("on a terminal", shown, &on)] {
                        if let Some(got) = got {
                            if got != *want {
                                r.violation(format!("the output {what}, with TERM={}, has not the usual colours", quote(w)), vec![(Env::Plain, a.clone())], vec![want.clone(), got], format!("# {what}\n$ TERM={} {}", quote(w), show_runs(&[(Env::Plain, a.clone())])));
                                return;
                            }
                        }
                    }
                    if r.stopped() {
                        return;
                    }
                }
            }
        });
    }
    t.bound("every word of the string literals in the sources, and 20 other names of terminals, as TERM: forced, on a terminal and not on one");
    // the colour test
    t.add("colour test", move |r| {
        r.check_env(vec![(Env::Plain, args(&["--color-test"])), (Env::Color, args(&["--color-test"]))], |o| {
            none("standard output with colours off", &o[0].out)?;
            colour_test(&o[0], false)?;
            colour_test(&o[1], true)
        });
    });
    t.bound("the colour test with colours off and on");
    // only text colours, and none left on, whatever is shown; none at all in the other modes
    for fam in FAMS {
        let w = fam.w();
        for part in 0..8u32 {
            t.add(format!("{fam:?} networks, part {part}"), move |r| {
                let mut masks: Vec<u128> = (0..=w).map(|p| fam.prefix_mask(p)).collect();
                masks.extend(sparse_wildcards(fam, if fam == V4 || th { 2 } else { 1 }));
                masks.extend(block_masks(fam).into_iter().step_by(if th { 1 } else { 9 }));
                for (i, m) in masks.iter().enumerate().skip(part as usize).step_by(8) {
                    for bg in if th { backgrounds(fam) } else { vec![backgrounds(fam)[i / 8 % 4]] } {
                        r.check_env(vec![(Env::Color, vec![spec(fam, bg, *m)])], |o| coloured(&o[0]));
                        let h = m.count_zeros() - (128 - w);
                        if h < 8 {
                            r.check_env(vec![(Env::Color, vec!["-e".into(), spec(fam, bg, *m)])], |o| none("standard output", &o[0].out).map(|_| 1));
                        }
                        r.check_env(vec![(Env::Color, vec!["-m".into(), spec(fam, bg, *m), spec(fam, bg ^ 1, *m)])], |o| none("standard output", &o[0].out).map(|_| 1));
                        r.check_env(vec![(Env::Color, vec!["-d".into(), fam.fmt(bg), fam.fmt(bg ^ m)])], |o| none("standard output", &o[0].out).map(|_| 1));
                        if fam.mask_prefix(*m).is_some() {
                            r.check_env(vec![(Env::Color, vec!["-s".into(), spec(fam, bg, *m), "1".into(), "6".into()])], |o| coloured(&o[0]));
                        }
                        if h > 0 {
                            let to = (*m | m.wrapping_add(1)) & fam.full(); // one host bit less
                            r.check_env(vec![(Env::Color, vec!["-r".into(), spec(fam, bg, *m), fam.fmt(to)])], |o| coloured(&o[0]));
                        }
                    }
                }
            });
        }
        for (i, c) in place_addrs(fam).chunks(60).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} places {i}"), move |r| {
                for a in c {
                    for p in [0, 1, 4, 8, 9, 16, 20, 24, 27, 30, 31, w.min(48), w.min(64), w - 1, w] {
                        r.check_env(vec![(Env::Color, vec![spec(fam, a, fam.prefix_mask(p))])], |o| coloured(&o[0]));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: with colours on, every prefix, masks of one or two host bits, block masks and places in all modes: no sequence but those that set and end a text colour, none on at the end of a line, none in -e, -m, -d"));
    }
}
