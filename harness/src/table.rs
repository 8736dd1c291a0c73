//! Interval oracle for concurrent calls on the subscription table.
//! Every call takes effect on each (client, filter) at one moment between its
//! invocation and its return; the rules below reject only results that no
//! choice of such moments can explain.
use crate::codec::matches;
use crate::scen::TOp;
use crate::world::{TRec, World};
use std::collections::{BTreeMap, BTreeSet};

pub fn cid(k: u8) -> String {
    format!("tbl-{}", k)
}

struct Ev {
    inv: u64,
    ret: u64,
    nl: bool,
}

pub fn check(w: &mut World, recs: &[TRec], leak: &[String]) {
    let mut subs: BTreeMap<(u8, &str), Vec<Ev>> = BTreeMap::new();
    let mut unsubs: BTreeMap<(u8, &str), Vec<Ev>> = BTreeMap::new();
    let mut alls: BTreeMap<u8, Vec<Ev>> = BTreeMap::new();
    for r in recs {
        match &r.op {
            TOp::Sub { k, f, nl } => subs.entry((*k, f.as_str())).or_default().push(Ev { inv: r.inv, ret: r.ret, nl: *nl }),
            TOp::Unsub { k, f } => unsubs.entry((*k, f.as_str())).or_default().push(Ev { inv: r.inv, ret: r.ret, nl: false }),
            TOp::UnsubAll { k } => alls.entry(*k).or_default().push(Ev { inv: r.inv, ret: r.ret, nl: false }),
            TOp::Look { .. } => (),
        }
    }
    let empty: Vec<Ev> = vec![];
    let clients: BTreeSet<u8> = subs.keys().map(|k| k.0).collect();
    let mut out = vec![];
    for r in recs {
        let TOp::Look { t } = &r.op else { continue };
        for k in &clients {
            let id = cid(*k);
            let got = r.res.iter().find(|x| x.0 == id);
            let mut must = None;
            let mut may = false;
            // possible no-local values when exactly one filter can contribute
            let mut contributing = 0;
            let mut values: BTreeSet<bool> = BTreeSet::new();
            for ((kk, f), ss) in &subs {
                if kk != k || !matches(f, t) {
                    continue;
                }
                let un = unsubs.get(&(*k, f)).unwrap_or(&empty).iter().chain(alls.get(k).unwrap_or(&empty).iter());
                let un: Vec<&Ev> = un.collect();
                let mut any = false;
                for (i, s) in ss.iter().enumerate() {
                    if s.inv > r.ret {
                        continue;
                    }
                    // could this subscription still be the one in place?
                    let gone = un.iter().any(|u| u.inv > s.ret && u.ret < r.inv);
                    if !gone {
                        any = true;
                        // replaced for certain by a later subscribe?
                        let replaced = ss.iter().enumerate().any(|(j, x)| j != i && x.inv > s.ret && x.ret < r.inv);
                        if !replaced {
                            values.insert(s.nl);
                        }
                    }
                    if s.ret < r.inv && un.iter().all(|u| u.ret < s.inv || u.inv > r.ret) {
                        must = Some((*f, s.inv));
                    }
                }
                if any {
                    may = true;
                    contributing += 1;
                }
            }
            match got {
                None => {
                    if let Some((f, at)) = must {
                        out.push(format!(
                            "lookup of {:?} [{}..{}] does not name {}, subscribed to {:?} at [{}] and never unsubscribed since",
                            t, r.inv, r.ret, id, f, at
                        ));
                    }
                }
                Some((_, nl)) => {
                    if !may {
                        out.push(format!(
                            "lookup of {:?} [{}..{}] names {}, which has no matching subscription at any moment of the call",
                            t, r.inv, r.ret, id
                        ));
                    } else if contributing == 1 && !values.contains(nl) {
                        out.push(format!("lookup of {:?} [{}..{}] reports no-local {} for {}, possible values {:?}", t, r.inv, r.ret, nl, id, values));
                    }
                }
            }
        }
        for x in &r.res {
            if let Some(n) = x.0.strip_prefix("tbl-").and_then(|s| s.parse::<u8>().ok()) {
                if !clients.contains(&n) {
                    out.push(format!("lookup of {:?} names {}, which never subscribed", t, x.0));
                }
            }
        }
    }
    for l in leak {
        out.push(format!("after unsubscribe-all of every client with no other call in progress: {}", l));
    }
    for m in out {
        w.viol(&["B22"], m);
    }
}
