// Conformance driver: executes the public operations of /repo's crates on behalf of the
// specification. Reads one JSON command per line from the file argv[1], appends one JSON
// response per line to argv[2] (flushed after every command, so that an abort is attributable).
// A panic in the code under test is data: {"r":"panic"}.
use amzn_smt_eager_arithmetic as eager;
use amzn_smt_string_fct_updater::transpiler as upd;
use amzn_smt_string_transformer as st;
use aws_smt_ir::{logic::all::ALL, model::Model};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use st::callgraph::{CallGraph, CallnodeData, NodeSetData};
use st::string_fcts::STRING_FCTS;

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn model_json(m: &Model<ALL>) -> Value {
    Value::Array(
        m.defns()
            .map(|d| {
                json!({
                    "name": d.sym.to_string(),
                    "args": d.args.iter().map(|(s, t)| json!([s.to_string(), t.to_string()])).collect::<Vec<_>>(),
                    "sort": d.sort.to_string(),
                    "body": d.body.to_string(),
                })
            })
            .collect(),
    )
}

fn solve(c: &Value) -> Value {
    let smt = s(c, "smt").as_bytes();
    let solver = s(c, "solver");
    let r = if solver.is_empty() || solver == "varisat" {
        eager::solve_with_varisat(smt)
    } else {
        eager::solve(smt, solver)
    };
    match r {
        Ok(None) => json!({"r": "unsat"}),
        Ok(Some(m)) => json!({"r": "sat", "model": model_json(&m), "text": m.to_string()}),
        Err(e) => json!({"r": "error", "msg": format!("{:#}", e)}),
    }
}

fn encode(c: &Value) -> Value {
    let mut buf = Vec::new();
    match eager::encode(s(c, "smt").as_bytes(), &mut buf) {
        Ok(()) => json!({"r": "ok", "dimacs": String::from_utf8_lossy(&buf)}),
        Err(e) => json!({"r": "error", "msg": format!("{:#}", e)}),
    }
}

fn modernize(c: &Value) -> Value {
    match upd::parse(s(c, "smt").as_bytes()) {
        Err(e) => json!({"r": "error", "msg": format!("{}", e)}),
        Ok(cmds) => {
            let out = upd::modernize_string_fcts(cmds);
            json!({"r": "ok", "out": out.iter().map(|c| c.to_string()).collect::<Vec<_>>()})
        }
    }
}

/// a history of conversions that share global_mapping.json of a directory
fn transformseq(c: &Value) -> Value {
    let d = s(c, "dir");
    let mut evs = Vec::new();
    for step in c["list"].as_array().unwrap() {
        let mut one = step.clone();
        one["dir"] = json!(d);
        one["global"] = json!(true);
        let mut v = catch_unwind(AssertUnwindSafe(|| transform(&one))).unwrap_or_else(|_| json!({"r": "panic"}));
        let f = std::fs::read_to_string(format!("{}/global_mapping.json", d)).unwrap_or_default();
        v["file"] = serde_json::from_str(&f).unwrap_or(Value::Null);
        evs.push(v);
    }
    json!({"r": "ok", "evs": evs})
}

fn transform(c: &Value) -> Value {
    let glob = c["global"].as_bool().unwrap_or(false);
    let c2c = c["c2c"].as_bool().unwrap_or(false);
    if let Some(d) = c["dir"].as_str() {
        std::env::set_current_dir(d).unwrap();
    }
    match st::transpiler::parse(s(c, "smt").as_bytes()) {
        Err(e) => json!({"r": "error", "msg": format!("{}", e)}),
        Ok(cmds) => {
            let (out, map) = st::transpiler::transform_ast(cmds, glob, c2c);
            let raw: Vec<String> = out.iter().map(|c| c.to_string()).collect();
            let shaped = st::subformula_parser::reconstruct_orig_query_shape(out);
            let shaped: Vec<String> = shaped.iter().map(|c| c.to_string()).collect();
            let mj = map.to_json_string().unwrap();
            if glob {
                map.print_json_to_file("global_mapping.json").unwrap();
            }
            let re: Vec<Value> = map.get_re_map().iter().map(|(a, b)| json!([a, b])).collect();
            json!({"r": "ok", "raw": raw, "out": shaped, "re": re, "map": serde_json::from_str::<Value>(&mj).unwrap()})
        }
    }
}

fn subformula(c: &Value) -> Value {
    match st::transpiler::parse(s(c, "smt").as_bytes()) {
        Err(e) => json!({"r": "error", "msg": format!("{}", e)}),
        Ok(cmds) => {
            let l = st::subformula_parser::find_string_subforumlas(false, cmds);
            json!({"r": "ok", "list": st::subformula_parser::SubFormulaJson::new(&l).sub_formula_list})
        }
    }
}

fn reparse(c: &Value) -> Value {
    match st::transpiler::parse(s(c, "smt").as_bytes()) {
        Err(e) => json!({"r": "error", "msg": format!("{}", e)}),
        Ok(cmds) => json!({"r": "ok", "out": cmds.map(|c| c.to_string()).collect::<Vec<_>>()}),
    }
}

fn reconstruct(c: &Value) -> Value {
    let p = s(c, "path").to_string();
    let ext = s(c, "ext").to_string();
    match st::reconstruct_tools::reconstruct_and_add_assertions(p.clone(), ext.clone()) {
        Ok(r) => {
            let f = std::fs::read_to_string(format!("{}_recon_check.{}", p, ext)).ok();
            json!({"r": format!("{:?}", r), "file": f})
        }
        Err(e) => json!({"r": "error", "msg": format!("{:?}", e)}),
    }
}

/// a history of one mapping file
fn mapfile(c: &Value) -> Value {
    use st::mapping_tools::Mapping;
    let d = s(c, "dir");
    let path = format!("{}/global_mapping.json", d);
    std::env::set_current_dir(d).unwrap();
    let mut evs = Vec::new();
    for op in c["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| match s(op, "op") {
            "write" => match serde_json::from_value::<Mapping>(op["map"].clone()) {
                Err(e) => json!({"r": format!("{}", e)}),
                Ok(m) => match m.print_json_to_file(&path) {
                    Err(e) => json!({"r": format!("{}", e)}),
                    Ok(()) => json!({"r": "ok"}),
                },
            },
            "cut" => {
                if let Ok(b) = std::fs::read(&path) {
                    let n = op["n"].as_u64().unwrap() as usize * b.len() / 1000;
                    std::fs::write(&path, &b[..n.min(b.len().saturating_sub(1))]).unwrap();
                }
                json!({"r": "ok"})
            }
            "read" => maproundtrip(&json!({"path": path})),
            "convert" => transform(&json!({"smt": op["smt"], "global": true, "dir": d})),
            o => panic!("bad op {}", o),
        }))
        .unwrap_or_else(|_| json!({"r": "panic"}));
        evs.push(r);
    }
    json!({"r": "ok", "evs": evs})
}

// parse JSON mapping file, convert persistent map to internal form and back: must be the identity
fn maproundtrip(c: &Value) -> Value {
    let p = s(c, "path");
    match st::mapping_tools::Mapping::build_from_json_file(p) {
        Err(e) => json!({"r": "error", "msg": format!("{}", e)}),
        Ok(m) => {
            let pm: Vec<Value> = m
                .persistent_string_map
                .iter()
                .map(|(k, v)| {
                    let o = v.to_meta_obj();
                    let j = st::mapping_tools::MappedStringMetaObjJson::new(&o);
                    json!([k, serde_json::to_value(&j).unwrap()])
                })
                .collect();
            let v: Value = serde_json::from_str(&m.to_json_string().unwrap()).unwrap();
            let re: Vec<Value> = m.get_re_map().iter().map(|(a, b)| json!([a, b])).collect();
            let un: Vec<Value> = m.get_un_alpha_map().iter().map(|(a, b)| json!([a, b])).collect();
            json!({"r": "ok", "map": v, "meta": pm, "re": re, "un": un})
        }
    }
}

fn nsd(n: &Option<NodeSetData>, names: &dyn Fn(usize) -> String) -> Value {
    match n {
        None => Value::Null,
        Some(n) => nsd1(n, names),
    }
}
fn nsd1(n: &NodeSetData, names: &dyn Fn(usize) -> String) -> Value {
    let f: Vec<Value> = n.string_fcts.iter().map(|(a, b)| fct(*a, b)).collect();
    json!({"vars": n.vars.iter().map(|i| names(*i)).collect::<Vec<_>>(), "fcts": f,
           "lits": n.string_lits.iter().cloned().collect::<Vec<_>>()})
}

// the SMT-LIB name of a function (the last of its aliases) and its recorded arguments
fn fname(f: st::string_fcts::StringFct) -> &'static str {
    STRING_FCTS.iter().filter(|(_, g)| *g == f).map(|(n, _)| *n).max().unwrap_or("")
}
fn fct(f: st::string_fcts::StringFct, a: &st::string_fcts::StringFctArgs) -> Value {
    use st::string_fcts::StringFctArgs::*;
    let args = match a {
        NoArgs => vec![],
        Contains(x) => vec![x.clone()],
        ReRange(x, y) => vec![x.to_string(), y.to_string()],
    };
    json!([fname(f), args])
}

fn sfc(name: &str) -> st::string_fcts::StringFct {
    STRING_FCTS
        .iter()
        .find(|(n, _)| *n == name)
        .map(|(_, f)| *f)
        .unwrap_or(st::string_fcts::StringFct::NO_OP)
}

// a whole callgraph session: constraint vars, calls, edges, then propagate and observe everything
fn callgraph(c: &Value) -> Value {
    let mut g = CallGraph::default();
    let mut names: Vec<String> = vec![];
    let strset = |v: &Value| -> BTreeSet<String> {
        v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    };
    let mut steps = vec![];
    let mut prop = Value::Null;
    for op in c["ops"].as_array().unwrap() {
        let r = match s(op, "op") {
            "cvar" => {
                let n = s(op, "n");
                let id = g.add_constraint_var(n.into(), CallnodeData::new(sfc(""), strset(&op["lits"])));
                names.push(n.to_string());
                json!(id)
            }
            "call" => {
                let n = s(op, "n");
                let id = g.add_call(n.into(), CallnodeData::new(sfc(s(op, "f")), strset(&op["lits"])));
                names.push(n.to_string());
                json!(id)
            }
            "edge" => json!(match g.add_parent_child(&s(op, "p").into(), &s(op, "c").into()) {
                Ok(()) => "ok".to_string(),
                Err(e) => format!("{:?}", e),
            }),
            "sib" => {
                let sibs = op["s"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
                json!(match g.add_direct_siblings(sibs, strset(&op["lits"])) {
                    Ok(()) => "ok".to_string(),
                    Err(e) => format!("{:?}", e),
                })
            }
            "propagate" => {
                prop = json!(match g.propagate_all() {
                    Ok(()) => "ok".to_string(),
                    Err(e) => format!("{:?}", e),
                });
                prop.clone()
            }
            o => panic!("bad op {}", o),
        };
        steps.push(r);
    }
    let nm = |i: usize| names[i].clone();
    let nodes: Vec<Value> = names
        .iter()
        .map(|n| {
            let d = g.get_data_for_var(&n.as_str().into()).unwrap();
            let cv = g.get_constraint_vars_in_partition_with(&n.as_str().into());
            json!({"n": n, "f": fct(d.string_fct, &d.string_fct_args),
                   "lits": d.string_lits_built_from.iter().cloned().collect::<Vec<_>>(),
                   "utb": nsd(&d.used_to_build, &nm), "bf": nsd(&d.built_from, &nm), "uw": nsd(&d.used_with, &nm),
                   "cv": cv.map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()).unwrap_or_default()})
        })
        .collect();
    json!({"r": "ok", "steps": steps, "prop": prop, "nodes": nodes,
           "parts": g.partitions().iter().map(|p| nsd1(p, &nm)).collect::<Vec<_>>()})
}

fn step(c: &Value) -> Value {
    match s(c, "op") {
        "solve" => solve(c),
        "encode" => encode(c),
        "modernize" => modernize(c),
        "transform" => transform(c),
        "transformseq" => transformseq(c),
        "subformula" => subformula(c),
        "reparse" => reparse(c),
        "reconstruct" => reconstruct(c),
        "mapfile" => mapfile(c),
        "maproundtrip" => maproundtrip(c),
        "callgraph" => callgraph(c),
        o => json!({"r": "badop", "msg": o}),
    }
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::File::open(&args[1]).expect("commands file");
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(Path::new(&args[2])).expect("out file");
    for line in std::io::BufReader::new(input).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).expect("command json");
        let mut v = match catch_unwind(AssertUnwindSafe(|| step(&c))) {
            Ok(v) => v,
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"r": "panic", "msg": msg})
            }
        };
        v["id"] = c["id"].clone();
        writeln!(out, "{}", v).unwrap();
        out.flush().unwrap();
    }
}

fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
}
