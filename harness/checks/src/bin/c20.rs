//! C20: the interactive shell.
//! The real shell runs as a child process, fed a generated session; a stand-in for the context (plain DataFusion) notes
//! every query it is given. Reference: the session read line by line by the documented rules.
use arrow::array::{Array, StringArray};
use arrow::util::pretty::pretty_format_batches_with_options;
use pbt::*;
use seafowl_cli::cli::SeafowlCli;
use seafowl_cli::context::SeafowlContext;
use seafowl_untested::cli::commands::{all_commands_info, Command};
use std::io::Write;
use std::process::{Command as Child, Stdio};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------ the child

fn child(dir: &str) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let ctx = Arc::new(SeafowlContext::stand_in(Some(format!("{dir}/log.json").into())));
    if let Err(e) = rt.block_on(SeafowlCli::new(ctx).command_loop()) {
        println!("SHELL ERROR {e}");
        std::process::exit(3);
    }
}

// ------------------------------------------------------------------------------------------------ reference

/// One complete input, as the documentation describes it.
#[derive(Debug, Clone, PartialEq)]
enum Input {
    Quit,
    Help,
    List,
    Describe(String),
    Unknown(String),
    Sql(String),
}

fn read(lines: &[(String, &'static str)]) -> Vec<Input> {
    let mut out = vec![];
    let mut acc = String::new();
    for (l, end) in lines {
        acc += l;
        let t = acc.trim_end();
        if t.starts_with('\\') {
            out.push(command(&acc));
            acc.clear();
            if out.last() == Some(&Input::Quit) {
                break;
            }
        } else if t.ends_with(';') {
            out.push(Input::Sql(std::mem::take(&mut acc)));
        } else {
            acc += end;
        }
    }
    out
}

fn command(line: &str) -> Input {
    let body = line[1..].trim_end();
    let (name, arg) = match body.find(char::is_whitespace) {
        Some(i) => (&body[..i], Some(body[i..].trim_start())),
        None => (body, None),
    };
    match (name, arg) {
        ("q" | "quit", None) => Input::Quit,
        ("?", None) => Input::Help,
        ("d", None) => Input::List,
        ("d", Some(t)) => Input::Describe(t.to_string()),
        _ => Input::Unknown(line[1..].to_string()),
    }
}

/// What the shell prints for a query, and whether it fails; and the calls it makes.
async fn run(ctx: &SeafowlContext, sql: &str) -> Result<String, (String, String)> {
    let mut out = String::new();
    let e = |e: datafusion_common::DataFusionError| e.strip_backtrace();
    let stmts = ctx.parse_query(sql).await.map_err(|x| (String::new(), e(x)))?;
    let mut plans = vec![];
    for s in stmts {
        let l = ctx.create_logical_plan_from_statement(s).await.map_err(|x| (String::new(), e(x)))?;
        plans.push(ctx.create_physical_plan(&l).await.map_err(|x| (String::new(), e(x)))?);
    }
    for p in plans {
        let b = ctx.collect(p).await.map_err(|x| (out.clone(), e(x)))?;
        if !b.is_empty() {
            out += &format!("{}\n", pretty_format_batches_with_options(&b, &Default::default()).unwrap());
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------ generation

const BLANK: &[&str] = &["", "", "", " ", "  ", "\t", " \t", "\u{a0}"];

fn sql_piece(s: &mut Src) -> String {
    let k = s.below(100);
    s.pick(&[
        format!("SELECT {k} AS a"),
        format!("SELECT 'x{k}' AS t, {k}"),
        format!("SELECT 'a;b{k}'"),
        format!("SELECT {k} WHERE false"),
        format!("SELECT nosuch{k}"),
        format!("SELEC {k}"),
        format!("SELECT {k} / (SELECT column1 FROM (VALUES (0)))"),
        format!("SHOW TABLES"),
        format!("SELECT '\\d {k}'"),
        format!("VALUES ({k}), (2)"),
        String::new(),
        format!("SELECT * FROM information_schema.tables LIMIT {}", k % 3),
        format!("/* {k} */ SELECT 'é雪'"),
    ])
    .clone()
}

fn line(s: &mut Src) -> String {
    let b = |s: &mut Src| s.pick(BLANK).to_string();
    match s.below(12) {
        0..=2 => {
            let name = *s.pick(&["q", "quit", "d", "?", "d", "?", "D", "Q", "help", "dd", "", "dt", "x", "quit;", "q;", "d;", "qq", "é", "??", "\\d", "/q", " d", "d\\"]);
            let n = s.below(3);
            let mut l = format!("\\{name}");
            // quitting early makes for short sessions
            if (name == "q" || name == "quit") && s.chance(2, 3) {
                l = format!("\\{name} now");
            }
            if n > 0 {
                l += *s.pick(&[" ", "  ", "\t", " \t "]);
                l += *s.pick(&["tables", "information_schema.tables", "\"a  b\"", "t;", "a b", "x\ty", "'q'", "\\q", "é", "q", "d", "\"x\" "]);
            }
            l + &b(s)
        }
        3 => b(s),
        4 => format!("{}\\q{}", s.pick(&[" ", "\t", "SELECT "]), b(s)),
        5..=8 => {
            let n = s.urange(1, 3);
            let mut l = b(s);
            for _ in 0..n {
                l += &sql_piece(s);
                l += ";";
                l += &b(s);
            }
            l
        }
        9 => sql_piece(s) + &b(s),
        10 => {
            let p = sql_piece(s);
            let k = s.urange(0, p.chars().count());
            p.chars().take(k).collect()
        }
        _ => format!("{};", s.pick(&["", " ", "-- c", "FROM x", "'", ", 1"])),
    }
}

fn timeless(t: &str) -> String {
    // the lines that only say how long it took
    t.lines()
        .map(|l| match l.strip_prefix("Time: ").and_then(|x| x.strip_suffix('s')) {
            Some(x) if x.parse::<f64>().is_ok() => "Time\n".to_string(),
            _ => format!("{l}\n"),
        })
        .collect()
}

fn session(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = s.urange(1, 14);
    let lines: Vec<(String, &'static str)> = (0..n).map(|_| (line(s), if s.chance(1, 6) { "\r\n" } else { "\n" })).collect();
    let text: String = lines.iter().map(|(l, e)| format!("{l}{e}")).collect();
    ctx.describe(format!("{text:?}"));
    let inputs = read(&lines);
    // the reference run
    let r = SeafowlContext::stand_in(None);
    let mut out = String::new();
    let mut err = String::new();
    for i in &inputs {
        ctx.label(format!("{i:?}").split('(').next().unwrap().to_string());
        let q = match i {
            Input::Quit => break,
            Input::Help => {
                out += &format!("{}\n", pretty_format_batches_with_options(&[all_commands_info()], &Default::default()).unwrap());
                continue;
            }
            Input::List => "SHOW TABLES".to_string(),
            Input::Describe(t) => format!("SHOW COLUMNS FROM {t}"),
            Input::Unknown(t) => {
                err += &format!("'\\{t}' is not a valid command\n");
                continue;
            }
            Input::Sql(q) => q.clone(),
        };
        match block_on(run(&r, &q)) {
            Ok(o) => out += &format!("{o}Time\n"),
            Err((o, e)) => {
                out += &o;
                err += &format!("{e}\n");
            }
        }
    }
    if inputs.last() != Some(&Input::Quit) {
        out += "\\q\n";
    }
    // the shell
    let dir = tempfile::tempdir().expect("scratch");
    let mut c = Child::new(std::env::current_exe().unwrap())
        .env("C20_CHILD", dir.path())
        .env("TERM", "xterm")
        .env_remove("RUST_BACKTRACE")
        .current_dir(dir.path())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("start the shell");
    let mut stdin = c.stdin.take().unwrap();
    let _ = stdin.write_all(text.as_bytes());
    drop(stdin);
    let o = c.wait_with_output().expect("shell");
    let got_out = timeless(&String::from_utf8_lossy(&o.stdout));
    let got_err = String::from_utf8_lossy(&o.stderr).to_string();
    let log: Vec<(String, String)> = std::fs::read_to_string(dir.path().join("log.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    let want: Vec<(String, String)> = r.log.lock().unwrap().iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
    let queries = |l: &[(String, String)]| l.iter().filter(|x| x.0 == "query").map(|x| x.1.clone()).collect::<Vec<_>>();
    ensure_eq!(queries(&log), queries(&want), "inputs", "queries run for the session");
    ensure_eq!(log.iter().filter(|x| x.0 != "query").collect::<Vec<_>>(), want.iter().filter(|x| x.0 != "query").collect::<Vec<_>>(), "statements", "statements planned and run");
    ensure_eq!(got_out, timeless(&out), "output", "text printed");
    // which inputs failed, not how the message is laid out
    let mut rest = got_err.as_str();
    // (the suggested spellings depend on the order of a hash map)
    for l in err.lines().filter(|l| !l.is_empty() && !l.starts_with("Did you mean")) {
        match rest.find(l) {
            Some(i) => rest = &rest[i + l.len()..],
            None => fail!("errors", "the message {l:?} is missing or out of order in {got_err:?}"),
        }
    }
    if err.is_empty() {
        ensure_eq!(got_err, "", "errors", "errors reported");
    }
    ensure!(o.status.success(), "exit", "the shell ended with {}", o.status);
    if inputs.len() > 2 && inputs.iter().any(|i| matches!(i, Input::Sql(_))) && inputs.iter().any(|i| !matches!(i, Input::Sql(_))) {
        ctx.nontrivial(&text);
    }
    Ok(())
}

/// Command spellings read directly.
fn spelling(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let cs: Vec<char> = "qdQD?uithelp \\;\"é\t".chars().collect();
    let t = if s.bool() {
        let w = *s.pick(&["q", "quit", "d", "?"]);
        let mut t = w.to_string();
        if s.chance(2, 3) {
            let i = s.urange(0, t.len());
            t.insert(i, *s.pick(&cs));
        }
        t
    } else {
        s.string_of(&cs, 0, 6)
    };
    let t = if s.chance(1, 3) { format!("{t} {}", s.string_of(&cs, 1, 8)) } else { t };
    // as the shell hands it over: trimmed
    let t = t.trim_end().to_string();
    ctx.describe(format!("{t:?}"));
    let got = t.parse::<Command>();
    let want = match t.split_once(' ') {
        None => match t.as_str() {
            "q" | "quit" => "Quit".to_string(),
            "d" => "ListTables".into(),
            "?" => "Help".into(),
            _ => "refused".into(),
        },
        Some(("d", x)) => format!("DescribeTable({x:?})"),
        Some(_) => "refused".into(),
    };
    let got = match got {
        Ok(c) => format!("{c:?}"),
        Err(()) => "refused".into(),
    };
    ensure_eq!(got, want, "command", "reading {t:?}");
    ctx.label(want.split('(').next().unwrap().to_string());
    if want != "refused" {
        ctx.nontrivial(&t);
    }
    // the help lists each command once, in a spelling that works
    let help = all_commands_info();
    let col = help.column(0).as_any().downcast_ref::<StringArray>().unwrap();
    let mut names: Vec<String> = (0..col.len()).map(|i| col.value(i).to_string()).collect();
    names.sort();
    ensure_eq!(names, ["\\?", "\\d", "\\d name", "\\q"].map(String::from).to_vec(), "help", "commands listed");
    for n in &names {
        ensure!(n[1..].parse::<Command>().is_ok(), "help", "{n} is listed but not read");
    }
    Ok(())
}

fn main() {
    if let Ok(dir) = std::env::var("C20_CHILD") {
        return child(&dir);
    }
    pbt::main(Property {
        id: "C20",
        rule: "non-trivial: a session with more than two inputs, both queries and commands; a spelling that is a command. Distinct by text.",
        assumptions: &["the context is a stand-in (plain DataFusion): only what the shell asks of it and prints is judged", "input comes from a pipe: rustyline reads it through the same validator as a terminal's"],
        legs: vec![leg("session", 12_000, 100_000, session), leg("spelling", 40_000, 1_000_000, spelling)],
    })
}
