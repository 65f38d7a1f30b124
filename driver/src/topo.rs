//! Abstract pipeline graphs and the ways to write them as a pa2 configuration.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Faucet,
    Launch,
    Junction,
    Buffer,
    Regulator,
    Drain,
}
use Kind::*;
impl Kind {
    pub fn long(self) -> &'static str {
        match self {
            Faucet => "faucet",
            Launch => "launch",
            Junction => "junction",
            Buffer => "buffer",
            Regulator => "regulator",
            Drain => "drain",
        }
    }
    pub fn relay(self) -> bool {
        matches!(self, Junction | Buffer | Regulator)
    }
}

/// Where a faucet reads or a drain writes.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum End {
    None,
    File(usize),
    Std,
    StdErr,
    Null,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: Kind,
    pub name: String,
    #[serde(default)]
    pub prog: usize,
    pub end: End,
    /// regulator: low, high, watched buffers (node indices)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub reg: Option<(usize, usize, Vec<usize>)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub arg: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<(String, String)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub path: Option<String>,
}

/// port: 0 out, 1 err, 2 exit
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Edge {
    pub s: usize,
    pub port: u8,
    pub d: usize,
    #[serde(default)]
    pub prio: i64,
    pub brk: char,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Topo {
    pub nodes: Vec<Node>,
    pub edges: Vec<Edge>,
    /// "/sim/..." paths by file index, commands by program index
    pub files: Vec<String>,
    pub cmds: Vec<String>,
    /// entries that are missing from the configuration
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub omit: Vec<usize>,
    /// launches without a command
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub no_cmd: Vec<usize>,
}

impl Topo {
    pub fn add(&mut self, kind: Kind, name: &str) -> usize {
        self.nodes.push(Node {
            kind,
            name: name.to_string(),
            prog: usize::MAX,
            end: End::None,
            reg: None,
            arg: vec![],
            env: vec![],
            path: None,
        });
        self.nodes.len() - 1
    }
    pub fn edge(&mut self, s: usize, port: u8, d: usize) -> usize {
        self.edges.push(Edge { s, port, d, prio: 0, brk: 'T' });
        self.edges.len() - 1
    }
    pub fn ins(&self, n: usize) -> Vec<&Edge> {
        self.edges.iter().filter(|e| e.d == n).collect()
    }
    pub fn outs(&self, n: usize) -> Vec<&Edge> {
        self.edges.iter().filter(|e| e.s == n).collect()
    }
    pub fn full_name(&self, n: usize) -> String {
        format!("{}:{}", self.nodes[n].kind.long(), self.nodes[n].name)
    }
    /// The streams (node, port) that feed node `n` through relays, one entry per path.
    pub fn feeds(&self, n: usize) -> Vec<(usize, u8)> {
        let mut v = vec![];
        self.feeds_into(n, &mut v, 0);
        v
    }
    fn feeds_into(&self, n: usize, v: &mut Vec<(usize, u8)>, depth: usize) {
        if depth > 60 {
            return;
        }
        for e in self.edges.iter().filter(|e| e.d == n) {
            if self.nodes[e.s].kind.relay() {
                self.feeds_into(e.s, v, depth + 1)
            } else {
                v.push((e.s, e.port))
            }
        }
    }
    pub fn acyclic(&self) -> bool {
        let n = self.nodes.len();
        let mut deg = vec![0; n];
        for e in &self.edges {
            deg[e.d] += 1;
        }
        let mut st: Vec<usize> = (0..n).filter(|i| deg[*i] == 0).collect();
        let mut seen = 0;
        while let Some(x) = st.pop() {
            seen += 1;
            for e in &self.edges {
                if e.s == x {
                    deg[e.d] -= 1;
                    if deg[e.d] == 0 {
                        st.push(e.d)
                    }
                }
            }
        }
        seen == n
    }
    /// nodes reachable from n along edges (including n)
    pub fn downstream(&self, n: usize) -> Vec<bool> {
        let mut r = vec![false; self.nodes.len()];
        r[n] = true;
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            for e in &self.edges {
                if e.s == x && !r[e.d] {
                    r[e.d] = true;
                    st.push(e.d)
                }
            }
        }
        r
    }
    /// Are there regulators that wait for each other? (One that is paused until a buffer has less in it, which can
    /// only be emptied through another one that waits for the first.)
    pub fn regulation_cycle(&self) -> bool {
        let regs: Vec<usize> =
            (0..self.nodes.len()).filter(|n| matches!(&self.nodes[*n].reg, Some((_, _, w)) if !w.is_empty())).collect();
        let waits: Vec<Vec<bool>> = regs
            .iter()
            .map(|r| {
                let mut v = vec![false; regs.len()];
                for b in &self.nodes[*r].reg.as_ref().unwrap().2 {
                    let d = self.downstream(*b);
                    for (i, q) in regs.iter().enumerate() {
                        v[i] |= d[*q];
                    }
                }
                v
            })
            .collect();
        let n = regs.len();
        let mut reach = waits;
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    let x = reach[i][k] && reach[k][j];
                    reach[i][j] |= x;
                }
            }
        }
        (0..n).any(|i| reach[i][i])
    }
    pub fn upstream(&self, n: usize) -> Vec<bool> {
        let mut r = vec![false; self.nodes.len()];
        r[n] = true;
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            for e in &self.edges {
                if e.d == x && !r[e.s] {
                    r[e.s] = true;
                    st.push(e.s)
                }
            }
        }
        r
    }
    /// undirected connected component
    pub fn component(&self, n: usize) -> Vec<bool> {
        let mut r = vec![false; self.nodes.len()];
        r[n] = true;
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            for e in &self.edges {
                for (a, b) in [(e.s, e.d), (e.d, e.s)] {
                    if a == x && !r[b] {
                        r[b] = true;
                        st.push(b)
                    }
                }
            }
        }
        r
    }
}

/// How to write the configuration.
#[derive(Clone, Debug, Default)]
pub struct Style {
    /// percent of chains written as structures instead of strings
    pub structs: usize,
    /// percent chance to extend a chain instead of starting a new one
    pub chain: usize,
    pub long_names: usize,
    pub explicit_defaults: usize,
    pub yaml: bool,
    pub odd_keys: usize,
}
impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            structs: *r.pick(&[0, 0, 50, 100]),
            chain: *r.pick(&[0, 50, 90, 90]),
            long_names: *r.pick(&[0, 50, 100]),
            explicit_defaults: *r.pick(&[0, 50, 100]),
            yaml: r.chance(40),
            odd_keys: *r.pick(&[0, 0, 30]),
        }
    }
}

const PORTS: [&str; 3] = ["out", "err", "exit"];
const PCODE: [&str; 3] = ["O", "E", "X"];

fn ident(t: &Topo, n: usize, st: &Style, r: &mut Rng) -> String {
    let k = t.nodes[n].kind.long();
    let k = if r.chance(st.long_names) { k } else { &k[..1] };
    format!("{}:{}", k, t.nodes[n].name)
}
fn pipe(e: &Edge, st: &Style, r: &mut Rng) -> String {
    let sp = |r: &mut Rng| if r.chance(85) { " " } else { r.of(&["", "  "]) };
    let a = sp(r).to_string();
    let b = sp(r).to_string();
    match e.brk {
        'T' if !r.chance(st.explicit_defaults) => format!("{}|{}", a, b),
        c => format!("{}|{}|{}", a, c, b),
    }
}
fn chain_string(t: &Topo, chain: &[usize], st: &Style, r: &mut Rng) -> String {
    let mut s = String::new();
    for (i, ei) in chain.iter().enumerate() {
        let e = &t.edges[*ei];
        if i == 0 {
            s.push_str(&ident(t, e.s, st, r));
        }
        if e.port != 0 || r.chance(st.explicit_defaults) {
            s.push_str(&format!("[{}]", PCODE[e.port as usize]));
        }
        s.push_str(&pipe(e, st, r));
        if e.prio != 0 || r.chance(st.explicit_defaults) {
            s.push_str(&format!("[{}]", e.prio));
        }
        s.push_str(&ident(t, e.d, st, r));
    }
    s
}
fn chain_struct(t: &Topo, chain: &[usize], r: &mut Rng) -> Value {
    let mut v = vec![];
    let brk = |c: char| match c {
        'F' => "finish",
        'C' => "consume",
        _ => "terminate",
    };
    for (i, ei) in chain.iter().enumerate() {
        let e = &t.edges[*ei];
        if i == 0 {
            v.push(json!({"component_type": t.nodes[e.s].kind.long(), "component_name": t.nodes[e.s].name,
                "output_port": PORTS[e.port as usize]}));
        }
        let mut o = json!({"component_type": t.nodes[e.d].kind.long(), "component_name": t.nodes[e.d].name,
            "breakable": brk(e.brk), "priority": e.prio});
        if e.brk == 'T' && r.chance(50) {
            // what is meant when nothing is said
            o.as_object_mut().unwrap().remove("breakable");
        }
        if let Some(n) = chain.get(i + 1) {
            o["output_port"] = json!(PORTS[t.edges[*n].port as usize]);
        }
        v.push(o);
    }
    Value::Array(v)
}

fn yaml_value(v: &Value) -> String {
    // JSON flow style is YAML
    v.to_string()
}

pub fn render(t: &Topo, st: &Style, r: &mut Rng) -> String {
    // cut the edges into chains
    let mut left: Vec<usize> = (0..t.edges.len()).collect();
    r.shuffle(&mut left);
    let mut chains: Vec<Vec<usize>> = vec![];
    while !left.is_empty() {
        // prefer starting at an edge whose source nobody left feeds
        let pos = left.iter().position(|e| !left.iter().any(|f| t.edges[*f].d == t.edges[*e].s)).unwrap_or(0);
        let mut c = vec![left.remove(pos)];
        while r.chance(st.chain) {
            let end = t.edges[*c.last().unwrap()].d;
            let next = left.iter().position(|e| t.edges[*e].s == end);
            match next {
                Some(p) => c.push(left.remove(p)),
                None => break,
            }
        }
        chains.push(c);
    }
    r.shuffle(&mut chains);
    let mut conn: Vec<(String, Value)> = vec![];
    let odd = ["dyn_connection_1", "dyn_connection_2", "main", "a_1", "a", "s_1", "1", "main_1", "dyn_connection_1_1"];
    for (i, c) in chains.iter().enumerate() {
        let mut key = format!("s{}", i);
        if r.chance(st.odd_keys) {
            let k = r.pick(&odd).to_string();
            if !conn.iter().any(|(x, _)| *x == k) {
                key = k
            }
        }
        let v = if r.chance(st.structs) { chain_struct(t, c, r) } else { Value::String(chain_string(t, c, st, r)) };
        conn.push((key, v));
    }
    let mut sections: Vec<(&str, Vec<(String, Value)>)> = vec![("connection", conn)];
    let mut f = vec![];
    let mut l = vec![];
    let mut d = vec![];
    let mut g = vec![];
    for (ni, n) in t.nodes.iter().enumerate() {
        if t.omit.contains(&ni) {
            continue;
        }
        let file = |i: &usize| t.files[*i].clone();
        match n.kind {
            Faucet => {
                let s = match &n.end {
                    End::File(i) => file(i),
                    End::Std => "-".to_string(),
                    End::Null => String::new(),
                    _ => "-".to_string(),
                };
                f.push((n.name.clone(), json!({ "source": s })));
            }
            Drain => {
                let s = match &n.end {
                    End::File(i) => file(i),
                    End::Std => "-".to_string(),
                    End::StdErr => "_".to_string(),
                    End::Null => "/dev/null".to_string(),
                    End::None => String::new(),
                };
                if n.end == End::Std && r.chance(20) {
                    d.push((n.name.clone(), json!({})));
                } else {
                    d.push((n.name.clone(), json!({ "destination": s })));
                }
            }
            Launch => {
                let mut o = Map::new();
                if !t.no_cmd.contains(&ni) {
                    o.insert("cmd".into(), json!(t.cmds[n.prog]));
                } else if r.chance(30) {
                    o.insert("cmd".into(), Value::Null);
                }
                if let Some(p) = &n.path {
                    o.insert("path".into(), json!(p));
                }
                if !n.arg.is_empty() {
                    o.insert("arg".into(), json!(n.arg));
                }
                if !n.env.is_empty() {
                    let m: Map<String, Value> = n.env.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
                    o.insert("env".into(), Value::Object(m));
                }
                l.push((n.name.clone(), Value::Object(o)));
            }
            Regulator => {
                let (lo, hi, bufs) = match n.reg.clone() {
                    Some(x) => x,
                    None => {
                        // passes everything
                        g.push((n.name.clone(), r.pick(&[json!({}), json!({ "buffered": Value::Null }), json!({"monitored_buffers": []})]).clone()));
                        continue;
                    }
                };
                let names: Vec<String> = bufs.iter().map(|b| t.nodes[*b].name.clone()).collect();
                if names.is_empty() && r.chance(30) {
                    g.push((n.name.clone(), json!({"buffered": [lo, hi]})));
                } else {
                    g.push((n.name.clone(), json!({"buffered": [lo, hi], "monitored_buffers": names})));
                }
            }
            _ => (),
        }
    }
    for (k, v) in [("faucet", f), ("launch", l), ("drain", d), ("regulator", g)] {
        if !v.is_empty() {
            sections.push((k, v));
        }
    }
    r.shuffle(&mut sections);
    for s in sections.iter_mut() {
        r.shuffle(&mut s.1);
    }
    // blank lines and comments, which mean nothing
    let airy = r.chance(30);
    if st.yaml {
        let mut o = String::new();
        let mut air = |o: &mut String, r: &mut Rng| {
            if airy && r.chance(25) {
                o.push_str(r.pick(&["\n", "\n\n", "# f:a | d:b\n", "  # launch:\n", "#\n", "\n#---\n\n"]));
            }
        };
        if airy && r.chance(30) {
            o.push_str("---\n");
        }
        for (k, v) in sections {
            air(&mut o, r);
            o.push_str(&format!("{}:\n", k));
            for (n, x) in v {
                o.push_str(&format!("  {}: {}\n", Value::String(n), yaml_value(&x)));
                air(&mut o, r);
            }
        }
        if airy && r.chance(25) {
            o = o.replace('\n', "\r\n");
        }
        o
    } else if airy {
        let parts: Vec<String> = sections
            .into_iter()
            .map(|(k, v)| {
                let inner: Vec<String> = v.into_iter().map(|(n, x)| format!("    {}: {}", Value::String(n), x)).collect();
                format!("  \"{}\": {{\n{}\n  }}", k, inner.join(",\n\n"))
            })
            .collect();
        format!("\n{{\n{}\n}}\n\n", parts.join(",\n"))
    } else {
        let parts: Vec<String> = sections
            .into_iter()
            .map(|(k, v)| {
                let inner: Vec<String> = v.into_iter().map(|(n, x)| format!("{}: {}", Value::String(n), x)).collect();
                format!("\"{}\": {{{}}}", k, inner.join(", "))
            })
            .collect();
        format!("{{{}}}", parts.join(", "))
    }
}
