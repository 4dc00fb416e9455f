//! Abstract interpreter over generic MIR.

use crate::au;
use crate::dom::*;
use crate::lin::*;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeFoldable, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const USIZE_MAX: i128 = (1i128 << 64) - 1;

#[derive(Clone, Debug)]
pub enum Out {
    Ret(Val),
    Unwind,
    Panic { msg: String, site: String },
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub rule: String,
    pub msg: String,
    pub entry: String,
    pub site: String,
    pub trace: Vec<String>,
    pub unknown: bool,
}

pub struct BodyInfo<'tcx> {
    pub body: &'tcx Body<'tcx>,
    pub inst: Instance<'tcx>,
    pub name: String,
    pub local: bool,
    pub loops: BTreeMap<BasicBlock, BTreeSet<BasicBlock>>,
    pub live: Vec<BTreeSet<Local>>,
    pub borrowed: BTreeSet<Local>,
}

pub struct Frame<'tcx> {
    pub info: Rc<BodyInfo<'tcx>>,
    pub locals: Vec<ObjId>,
}

pub struct StackEntry<'tcx> {
    pub name: String,
    pub site: String,
    pub def: DefId,
    pub args: GenericArgsRef<'tcx>,
    pub local: bool,
    pub roots: Vec<ObjId>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mode {
    /// caller-supplied conversions answer consistently
    Pure,
    /// caller-supplied conversions may answer anything on every call
    Hostile,
}

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub bodies: HashMap<(DefId, GenericArgsRef<'tcx>, u32), Option<Rc<BodyInfo<'tcx>>>>,
    pub overflow_checks: bool,
    pub mode: Mode,
    pub sink: Vec<Viol>,
    pub stack: Vec<StackEntry<'tcx>>,
    pub fuel: i64,
    /// resident memory at which an operation is given up
    pub memory_mb: u64,
    pub entry: String,
    pub stats: BTreeMap<String, u64>,
    pub visited: BTreeSet<String>,
    pub unmodelled: BTreeSet<String>,
    pub verbose: bool,
    pub gave_up: Option<String>,
    pub deadline: std::time::Instant,
    pub entry_secs: u64,
    pub log_panics: bool,
    /// time spent on second attempts
    pub second_ms: u128,
    /// operations proved to keep their contracts
    pub sums: HashMap<DefId, crate::spec::Entry<'tcx>>,
    /// what has been proved of an operation
    pub done: HashMap<(DefId, Mode), crate::spec::EntryReport>,
    pub proved: bool,
    pub use_sums: bool,
}

pub enum Pv {
    Loc(Loc),
    Un { base: Base, off: Lin, len: Lin },
    El { base: Base, off: Lin },
}

pub struct Region<'a> {
    head: BasicBlock,
    blocks: &'a BTreeSet<BasicBlock>,
}

#[derive(Default)]
pub struct RunOut {
    pub outs: Vec<(State, Out)>,
    pub exits: Vec<(BasicBlock, State)>,
    pub backs: Vec<State>,
}

pub fn int_range(ty: Ty<'_>) -> Option<(i128, i128, u32)> {
    Some(match ty.kind() {
        ty::Uint(u) => {
            let b = u.bit_width().unwrap_or(64) as u32;
            if b >= 127 {
                (0, i128::MAX / 4, 128)
            } else {
                (0, (1i128 << b) - 1, b)
            }
        }
        ty::Int(i) => {
            let b = i.bit_width().unwrap_or(64) as u32;
            if b >= 127 {
                (i128::MIN / 4, i128::MAX / 4, 128)
            } else {
                (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1, b)
            }
        }
        _ => return None,
    })
}

fn sext(v: u128, ty: Ty<'_>) -> i128 {
    match ty.kind() {
        ty::Int(i) => {
            let b = i.bit_width().unwrap_or(64) as u32;
            let sh = 128 - b;
            ((v << sh) as i128) >> sh
        }
        _ => v as i128,
    }
}

impl<'tcx> Cx<'tcx> {
    pub fn mono<T: TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, inst: &Instance<'tcx>, v: T) -> T {
        match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, v)) {
            Ok(x) => x,
            Err(_) => v,
        }
    }
    pub fn site(&self, span: Span) -> String {
        let sp = span.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        let f = f.rsplit("/rust/library/").next().unwrap_or(&f).to_string();
        format!("{}:{}", f, lo.line)
    }
    pub fn local_site(&self, here: &str) -> String {
        // innermost call site inside the crate under analysis
        let n = self.stack.len();
        if n == 0 {
            return here.to_string();
        }
        if self.stack[n - 1].local {
            return here.to_string();
        }
        for i in (0..n).rev() {
            if !self.stack[i].local && i > 0 && self.stack[i - 1].local {
                return self.stack[i].site.clone();
            }
        }
        here.to_string()
    }
    fn note(&self, m: &str, site: &str) {
        if self.verbose {
            eprintln!("  [summary at {site}] {m}");
        }
    }
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_default() += 1;
    }
    pub fn viol(&mut self, st: &State, prop: &'static str, rule: &str, msg: String, site: &str, unknown: bool) {
        let mut trace = st.trace_vec();
        if trace.len() > 40 {
            trace.drain(..trace.len() - 40);
        }
        let site = self.local_site(site);
        self.sink.push(Viol { prop, rule: rule.into(), msg, entry: self.entry.clone(), site, trace, unknown });
    }
    pub fn unknown(&mut self, st: &State, msg: String, site: &str) {
        self.viol(st, "*", "unsupported", msg, site, true);
    }

    // ------------------------------------------------------------------------------------------ bodies

    pub fn body_info(&mut self, inst: Instance<'tcx>, promoted: Option<mir::Promoted>) -> Option<Rc<BodyInfo<'tcx>>> {
        let def = inst.def.def_id();
        let disc = match inst.def {
            InstanceKind::Item(_) => 0,
            InstanceKind::Shim(ShimKind::DropGlue(..)) => 1,
            _ => 2,
        } + promoted.map_or(0, |p| 16 + p.as_u32());
        let key = (def, inst.args, disc);
        if let Some(b) = self.bodies.get(&key) {
            return b.clone();
        }
        let tcx = self.tcx;
        let body: Option<&'tcx Body<'tcx>> = match inst.def {
            InstanceKind::Item(d) => {
                if let Some(p) = promoted {
                    tcx.promoted_mir(d).get(p)
                } else {
                    match tcx.def_kind(d) {
                        DefKind::Const | DefKind::AssocConst | DefKind::AnonConst | DefKind::Static { .. } => {
                            if d.is_local() || tcx.is_mir_available(d) || matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) {
                                Some(tcx.mir_for_ctfe(d))
                            } else {
                                None
                            }
                        }
                        DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) | DefKind::SyntheticCoroutineBody => {
                            if tcx.is_mir_available(d) {
                                Some(tcx.instance_mir(inst.def))
                            } else {
                                None
                            }
                        }
                        _ => None,
                    }
                }
            }
            _ => None,
        };
        let info = body.map(|body| Rc::new(self.analyse_body(body, inst)));
        self.bodies.insert(key, info.clone());
        info
    }

    pub fn analyse_body(&self, body: &'tcx Body<'tcx>, inst: Instance<'tcx>) -> BodyInfo<'tcx> {
        let n = body.basic_blocks.len();
        let dom = body.basic_blocks.dominators();
        let preds = body.basic_blocks.predecessors();
        let mut loops: BTreeMap<BasicBlock, BTreeSet<BasicBlock>> = BTreeMap::new();
        let reach: BTreeSet<BasicBlock> = rustc_middle::mir::traversal::reachable(body).map(|(b, _)| b).collect();
        for bb in body.basic_blocks.indices() {
            if !reach.contains(&bb) {
                continue;
            }
            for s in body.basic_blocks[bb].terminator().successors() {
                if dom.dominates(s, bb) {
                    let set = loops.entry(s).or_default();
                    set.insert(s);
                    let mut w = vec![bb];
                    while let Some(x) = w.pop() {
                        if set.insert(x) {
                            for p in preds[x].iter() {
                                if reach.contains(p) {
                                    w.push(*p);
                                }
                            }
                        }
                    }
                }
            }
        }
        // liveness
        let mut borrowed: BTreeSet<Local> = BTreeSet::new();
        let mut gen: Vec<BTreeSet<Local>> = vec![Default::default(); n];
        let mut kill: Vec<BTreeSet<Local>> = vec![Default::default(); n];
        struct Vis<'a> {
            uses: &'a mut BTreeSet<Local>,
            kills: &'a mut BTreeSet<Local>,
            borrowed: &'a mut BTreeSet<Local>,
        }
        use rustc_middle::mir::visit::*;
        impl<'a, 'tcx> Visitor<'tcx> for Vis<'a> {
            fn visit_place(&mut self, place: &mir::Place<'tcx>, ctx: PlaceContext, loc: mir::Location) {
                let is_def = place.projection.is_empty()
                    && matches!(
                        ctx,
                        PlaceContext::MutatingUse(MutatingUseContext::Store)
                            | PlaceContext::MutatingUse(MutatingUseContext::Call)
                            | PlaceContext::MutatingUse(MutatingUseContext::SetDiscriminant)
                    );
                if ctx.is_borrow() || ctx.is_address_of() {
                    if !place.is_indirect() {
                        self.borrowed.insert(place.local);
                    }
                }
                if is_def {
                    if !self.uses.contains(&place.local) {
                        self.kills.insert(place.local);
                    }
                } else if !self.kills.contains(&place.local) {
                    self.uses.insert(place.local);
                }
                for e in place.projection.iter() {
                    if let ProjectionElem::Index(l) = e {
                        if !self.kills.contains(&l) {
                            self.uses.insert(l);
                        }
                    }
                }
                let _ = loc;
            }
        }
        for bb in body.basic_blocks.indices() {
            let (mut u, mut k) = (BTreeSet::new(), BTreeSet::new());
            {
                let data = &body.basic_blocks[bb];
                for (i, s) in data.statements.iter().enumerate() {
                    let loc = Location { block: bb, statement_index: i };
                    // right-hand side first
                    if let StatementKind::Assign(b) = &s.kind {
                        let mut v = Vis { uses: &mut u, kills: &mut k, borrowed: &mut borrowed };
                        v.visit_rvalue(&b.1, loc);
                        v.visit_place(&b.0, PlaceContext::MutatingUse(MutatingUseContext::Store), loc);
                    } else if !matches!(s.kind, StatementKind::StorageLive(_) | StatementKind::StorageDead(_)) {
                        let mut v = Vis { uses: &mut u, kills: &mut k, borrowed: &mut borrowed };
                        v.visit_statement(s, loc);
                    } else if let StatementKind::StorageLive(l) | StatementKind::StorageDead(l) = s.kind {
                        if !u.contains(&l) {
                            k.insert(l);
                        }
                    }
                }
                let loc = Location { block: bb, statement_index: data.statements.len() };
                let t = data.terminator();
                let mut v = Vis { uses: &mut u, kills: &mut k, borrowed: &mut borrowed };
                if let TerminatorKind::Call { func, args, destination, .. } = &t.kind {
                    v.visit_operand(func, loc);
                    for a in args.iter() {
                        v.visit_operand(&a.node, loc);
                    }
                    v.visit_place(destination, PlaceContext::MutatingUse(MutatingUseContext::Call), loc);
                } else {
                    v.visit_terminator(t, loc);
                }
                if let TerminatorKind::Return = t.kind {
                    if !k.contains(&RETURN_PLACE) {
                        u.insert(RETURN_PLACE);
                    }
                }
            }
            gen[bb.as_usize()] = u;
            kill[bb.as_usize()] = k;
        }
        let mut live: Vec<BTreeSet<Local>> = gen.clone();
        loop {
            let mut ch = false;
            for bb in body.basic_blocks.indices().rev() {
                let mut out: BTreeSet<Local> = BTreeSet::new();
                for s in body.basic_blocks[bb].terminator().successors() {
                    out.extend(live[s.as_usize()].iter());
                }
                let i = bb.as_usize();
                for l in out {
                    if !kill[i].contains(&l) && live[i].insert(l) {
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let def = inst.def.def_id();
        BodyInfo { body, inst, name: self.path(def), local: def.is_local(), loops, live, borrowed }
    }

    pub fn path(&self, def: DefId) -> String {
        use rustc_middle::ty::print::*;
        with_no_trimmed_paths!(self.tcx.def_path_str(def))
    }

    // ------------------------------------------------------------------------------------------ functions

    pub fn exec_fn(&mut self, mut st: State, inst: Instance<'tcx>, args: Vec<Val>, site: &str) -> Vec<(State, Out)> {
        let Some(info) = self.body_info(inst, None) else {
            let m = format!("no MIR for {}", self.path(inst.def.def_id()));
            self.unknown(&st, m, site);
            return vec![];
        };
        let rec = self.stack.iter().filter(|e| e.def == inst.def.def_id() && e.args == inst.args).count();
        if self.stack.len() > 60 || rec > 3 {
            let m = format!("recursion too deep at {}", info.name);
            self.unknown(&st, m, site);
            return vec![];
        }
        if info.local {
            self.visited.insert(info.name.clone());
        }
        let body = info.body;
        let n = body.local_decls.len();
        let locals: Vec<ObjId> = (0..n).map(|_| fresh_id()).collect();
        for l in &locals {
            st.objs.insert(*l, Val::Uninit);
        }
        // arguments
        let spread = body.spread_arg;
        let nargs = body.arg_count;
        let mut vals = args;
        if let Some(sp) = spread {
            let k = sp.as_usize();
            // arguments from k on are packed into one tuple
            let rest: Vec<Val> = vals.drain((k - 1).min(vals.len())..).collect();
            vals.push(Val::Agg(rest));
        }
        if vals.len() != nargs {
            let m = format!("argument count of {} ({} for {})", info.name, vals.len(), nargs);
            self.unknown(&st, m, site);
            return vec![];
        }
        for (i, v) in vals.into_iter().enumerate() {
            st.objs.insert(locals[i + 1], v);
        }
        self.stack.push(StackEntry {
            name: info.name.clone(),
            site: site.to_string(),
            def: inst.def.def_id(),
            args: inst.args,
            local: info.local,
            roots: locals.clone(),
        });
        let fr = Frame { info: info.clone(), locals: locals.clone() };
        let r = self.run(&fr, vec![(START_BLOCK, 0, st)], None);
        self.stack.pop();
        let mut outs = r.outs;
        if self.verbose && std::env::var("AS_SPLITS").is_ok() {
            eprintln!("{}{} -> {} outs", "  ".repeat(self.stack.len()), info.name, outs.len());
        }
        for (s, o) in outs.iter_mut() {
            // drop locals of the finished activation
            let mut keep: BTreeSet<ObjId> = BTreeSet::new();
            if let Out::Ret(v) = o {
                reach_val(s, v, &mut keep);
            }
            for l in &locals {
                if !keep.contains(l) {
                    s.objs.remove(l);
                }
            }
        }
        outs
    }

    pub fn exec_const(&mut self, mut st: State, info: Rc<BodyInfo<'tcx>>) -> Option<(State, Val)> {
        let body = info.body;
        let locals: Vec<ObjId> = (0..body.local_decls.len()).map(|_| fresh_id()).collect();
        for l in &locals {
            st.objs.insert(*l, Val::Uninit);
        }
        self.stack.push(StackEntry {
            name: info.name.clone(),
            site: String::new(),
            def: info.inst.def.def_id(),
            args: info.inst.args,
            local: info.local,
            roots: locals.clone(),
        });
        let fr = Frame { info: info.clone(), locals };
        let r = self.run(&fr, vec![(START_BLOCK, 0, st)], None);
        self.stack.pop();
        if r.outs.len() != 1 {
            return None;
        }
        match r.outs.into_iter().next() {
            Some((s, Out::Ret(v))) => Some((s, v)),
            _ => None,
        }
    }

    pub fn route(&mut self, fr: &Frame<'tcx>, region: Option<&Region>, bb: BasicBlock, st: State, work: &mut Vec<(BasicBlock, usize, State)>, ro: &mut RunOut) {
        if st.dead {
            return;
        }
        if let Some(r) = region {
            if bb == r.head {
                ro.backs.push(st);
                return;
            }
            if !r.blocks.contains(&bb) {
                ro.exits.push((bb, st));
                return;
            }
        }
        if fr.info.loops.contains_key(&bb) {
            let (outs, exits) = self.handle_loop(fr, bb, st);
            ro.outs.extend(outs);
            for (b, s) in exits {
                self.route(fr, region, b, s, work, ro);
            }
            return;
        }
        work.push((bb, 0, st));
    }

    pub fn run(&mut self, fr: &Frame<'tcx>, start: Vec<(BasicBlock, usize, State)>, region: Option<&Region>) -> RunOut {
        let mut ro = RunOut::default();
        let mut work = vec![];
        if region.is_none() {
            for (b, i, s) in start {
                if i == 0 {
                    self.route(fr, None, b, s, &mut work, &mut ro);
                } else {
                    work.push((b, i, s));
                }
            }
        } else {
            work = start;
        }
        while let Some((bb, i, mut st)) = work.pop() {
            self.fuel -= 1;
            if self.fuel < 0 || self.gave_up.is_some() {
                if self.gave_up.is_none() {
                    self.gave_up = Some(format!("analysis budget exhausted in {}", fr.info.name));
                }
                return ro;
            }
            if self.fuel % 256 == 0 && resident_mb() > self.memory_mb {
                self.gave_up = Some(format!("memory budget exhausted in {}", fr.info.name));
                return ro;
            }
            if self.fuel % 64 == 0 && std::time::Instant::now() > self.deadline {
                self.gave_up = Some(format!("time budget exhausted in {}", fr.info.name));
                return ro;
            }
            let data = &fr.info.body.basic_blocks[bb];
            let mut idx = i;
            let mut need: Option<Need> = None;
            let mut splits = std::mem::take(&mut st.splits);
            while idx < data.statements.len() {
                if let Err(n) = self.stmt(fr, &mut st, &data.statements[idx]) {
                    need = Some(n);
                    break;
                }
                idx += 1;
                splits = 0;
            }
            let span = if idx < data.statements.len() {
                data.statements[idx].source_info.span
            } else {
                data.terminator().source_info.span
            };
            if need.is_none() {
                match self.terminator(fr, &mut st, bb, region, &mut work, &mut ro) {
                    Ok(()) => continue,
                    Err(n) => need = Some(n),
                }
            }
            let site = self.site(span);
            match need.unwrap() {
                Need::Split(c) => {
                    st.splits = splits + 1;
                    if st.splits > 60 {
                        self.gave_up = Some(format!("the case analysis at {} does not end: {:?}", site, c));
                        return ro;
                    }
                    if self.verbose && std::env::var("AS_SPLITS").is_ok() {
                        eprintln!("split depth {} {}: {:?}", self.stack.len(), site, c);
                    }
                    let mut any = false;
                    for v in [true, false] {
                        for mut s in st.clone().assume(&c, v) {
                            any = true;
                            if self.verbose {
                                s.note(format!("{}: case {:?} = {}", site, c, v));
                            }
                            work.push((bb, idx, s));
                        }
                    }
                    let _ = any;
                }
                Need::Cases(l) => {
                    for (loc, v, c) in l {
                        for mut s in st.clone().assume(&c, true) {
                            s.store(&loc, v.clone());
                            work.push((bb, idx, s));
                        }
                    }
                }
                Need::Unsup(m) => {
                    let m = format!("{} (in {})", m, fr.info.name);
                    self.unknown(&st, m, &site);
                }
                Need::Ub(m) => {
                    let m = format!("{} (in {})", m, fr.info.name);
                    self.viol(&st, "S02", "undefined-behaviour", m, &site, false);
                }
            }
        }
        ro
    }

    pub fn clean_at_head(&self, fr: &Frame<'tcx>, head: BasicBlock, st: &mut State) {
        let live = &fr.info.live[head.as_usize()];
        for (i, o) in fr.locals.iter().enumerate() {
            let l = Local::from_usize(i);
            if !live.contains(&l) && !fr.info.borrowed.contains(&l) {
                st.objs.insert(*o, Val::Uninit);
            }
        }
        self.gc(st);
    }
    /// forget objects, items, characters and strings nothing refers to any more
    pub fn gc(&self, st: &mut State) {
        let mut users: BTreeSet<UserId> = st.users.iter().filter(|u| &*u.1.name != "item").map(|u| *u.0).collect();
        let mut keep: BTreeSet<ObjId>;
        let mut live: Live;
        loop {
            keep = BTreeSet::new();
            live = Live::default();
            for e in &self.stack {
                for o in &e.roots {
                    reach_obj(st, *o, &mut keep);
                }
            }
            for v in st.ghost.values().chain(st.effects.iter().flat_map(|e| e.args.iter().chain(e.ret.iter()))) {
                reach_val(st, v, &mut keep);
                live.val(v);
            }
            for u in &users {
                if let Some(u) = st.users.get(u) {
                    for v in u.memo.values() {
                        reach_val(st, v, &mut keep);
                        live.val(v);
                    }
                    live.text(&u.taken);
                    live.text(&u.kept);
                }
            }
            for o in &keep {
                if let Some(v) = st.objs.get(o) {
                    live.val(v);
                }
            }
            let n = users.len();
            users.extend(live.users.iter().copied().filter(|u| st.users.contains_key(u)));
            if users.len() == n {
                break;
            }
        }
        st.objs.retain(|k, _| keep.contains(k));
        st.users.retain(|k, _| users.contains(k));
        for c in &live.chars {
            if let Some(c) = st.chars.get(c) {
                live.strs.insert(c.s);
            }
        }
        // input strings and literals stay
        for (k, s) in &st.strs {
            if matches!(s.kind, SKind::Input | SKind::Wide) {
                live.strs.insert(*k);
            }
        }
        let ls = &live.strs;
        let in_text = |t: &Text| t.iter().all(|p| !matches!(p.src, Src::Str(s) if !ls.contains(&s)));
        st.facts.teq.retain(|f| in_text(&f.0) && in_text(&f.1));
        st.facts.ord.retain(|f| in_text(&f.0) && in_text(&f.1));
        st.facts.bnd.retain(|f| ls.contains(&f.0));
        st.facts.bytes.clear();
        st.facts.nb.retain(|f| ls.contains(&f.0));
        st.facts.rp.retain(|f| ls.contains(&f.2));
        let chars: BTreeSet<CharId> = st.chars.iter().filter(|c| ls.contains(&c.1.s)).map(|c| *c.0).collect();
        st.facts.pred.retain(|f| chars.contains(&f.1));
        st.chars.retain(|k, _| chars.contains(k));
        st.strs.retain(|k, _| ls.contains(k));
    }

    pub fn handle_loop(&mut self, fr: &Frame<'tcx>, head: BasicBlock, st: State) -> (Vec<(State, Out)>, Vec<(BasicBlock, State)>) {
        let before = st.consumed;
        let outer = FREEZE.with(|f| f.get()) && FROZEN.with(|f| f.get()) == 0;
        if outer {
            FROZEN.with(|f| f.set(sym_count()));
        }
        let (mut outs, mut exits) = self.loop_fixpoint(fr, head, st);
        if outer {
            FROZEN.with(|f| f.set(0));
        }
        for s in outs.iter_mut().map(|x| &mut x.0).chain(exits.iter_mut().map(|x| &mut x.1)) {
            s.consumed |= before;
            if outer {
                s.thaw();
            }
        }
        (outs, exits)
    }
    /// a loop that is certainly left after a few rounds needs no invariant: all its rounds are analysed one after another
    fn few_rounds(&mut self, fr: &Frame<'tcx>, head: BasicBlock, region: &Region, st: State) -> Option<(Vec<(State, Out)>, Vec<(BasicBlock, State)>)> {
        let save = std::mem::take(&mut self.sink);
        let (mut outs, mut exits) = (vec![], vec![]);
        let mut pending = vec![st];
        for _ in 0..6 {
            let mut next = vec![];
            for mut s in pending.drain(..) {
                self.clean_at_head(fr, head, &mut s);
                let r = self.run(fr, vec![(head, 0, s)], Some(region));
                outs.extend(r.outs);
                exits.extend(r.exits);
                next.extend(r.backs);
                if self.gave_up.is_some() {
                    break;
                }
            }
            pending = next;
            if pending.is_empty() || pending.len() > 16 || self.gave_up.is_some() {
                break;
            }
        }
        let sink = std::mem::replace(&mut self.sink, save);
        if !pending.is_empty() || self.gave_up.is_some() {
            return None;
        }
        self.stat("loops unrolled");
        self.sink.extend(sink);
        Some((outs, exits))
    }
    fn loop_fixpoint(&mut self, fr: &Frame<'tcx>, head: BasicBlock, st: State) -> (Vec<(State, Out)>, Vec<(BasicBlock, State)>) {
        let blocks = fr.info.loops[&head].clone();
        let region = Region { head, blocks: &blocks };
        if crate::au::UNROLL.with(|u| u.get()) {
            if let Some(r) = self.few_rounds(fr, head, &region, st.clone()) {
                return r;
            }
            if self.gave_up.is_some() {
                return (vec![], vec![]);
            }
        }
        let mut invs: Vec<(String, au::Inv, bool)> = vec![];
        let mut results: Vec<(RunOut, Vec<Viol>)> = vec![];
        let mut pending = vec![st];
        let roots: Vec<ObjId> = self.stack.iter().flat_map(|e| e.roots.iter().copied()).collect();
        let mut rounds = 0;
        loop {
            rounds += 1;
            let mut changed = false;
            for mut s in pending.drain(..) {
                self.clean_at_head(fr, head, &mut s);
                s.consumed = false;
                let sh = au::shape(&s, &roots);
                match invs.iter_mut().position(|x| x.0 == sh) {
                    None => {
                        invs.push((sh, au::Inv::new(s), true));
                        results.push((RunOut::default(), vec![]));
                        changed = true;
                    }
                    Some(i) => match au::included(&invs[i].1, &s) {
                        Ok(()) => {}
                        Err(e) => {
                            let j = au::join(&invs[i].1, &s);
                            if self.verbose {
                                eprintln!("  [loop {} {:?} shape {}] not included: {}; joined -> level {}", fr.info.name, head, i, e, j.level);
                                dump(&j.st, &roots);
                            }
                            invs[i].1 = j;
                            invs[i].2 = true;
                            changed = true;
                        }
                    },
                }
            }
            if !changed {
                break;
            }
            if rounds > 14 || invs.len() > 24 {
                self.gave_up = Some(format!("no loop invariant found in {}", fr.info.name));
                return (vec![], vec![]);
            }
            for i in 0..invs.len() {
                if !invs[i].2 {
                    continue;
                }
                invs[i].2 = false;
                let save = std::mem::take(&mut self.sink);
                let r = self.run(fr, vec![(head, 0, invs[i].1.st.clone())], Some(&region));
                let sink = std::mem::replace(&mut self.sink, save);
                if self.gave_up.is_some() {
                    return (vec![], vec![]);
                }
                pending.extend(r.backs.iter().cloned());
                results[i] = (r, sink);
            }
        }
        self.stat("loop invariants");
        let mut edges = vec![];
        for (i, (r, _)) in results.iter().enumerate() {
            for b in &r.backs {
                let mut s = b.clone();
                self.clean_at_head(fr, head, &mut s);
                let sh = au::shape(&s, &roots);
                if let Some(j) = invs.iter().position(|x| x.0 == sh) {
                    edges.push((i, j, b));
                }
            }
        }
        let states: Vec<&au::Inv> = invs.iter().map(|x| &x.1).collect();
        if let Some(b) = crate::rank::endless(&states, &edges) {
            let site = self.site(fr.info.body.basic_blocks[head].terminator().source_info.span);
            let msg = format!("nothing bounds the number of rounds of the loop in {}", fr.info.name);
            let b = b.clone();
            if self.verbose {
                eprintln!("  [no measure for loop {} {:?}]", fr.info.name, head);
                dump(&b, &roots);
            }
            self.viol(&b, "S05", "termination", msg, &site, false);
        } else {
            self.stat("loops with a measure");
        }
        let mut outs = vec![];
        let mut exits = vec![];
        for (r, v) in results {
            outs.extend(r.outs);
            exits.extend(r.exits);
            self.sink.extend(v);
        }
        (outs, exits)
    }

    // ------------------------------------------------------------------------------------------ statements

    pub fn stmt(&mut self, fr: &Frame<'tcx>, st: &mut State, s: &Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (place, rv) = &**b;
                let v = self.rvalue(fr, st, rv)?;
                self.write_place(fr, st, place, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pv = self.eval_place(fr, st, place)?;
                if let Pv::Loc(l) = pv {
                    let fields = match st.load(&l) {
                        Some(Val::Enum(_, f)) => f.clone(),
                        _ => vec![],
                    };
                    st.store(&l, Val::Enum(variant_index.as_u32(), fields));
                }
                Ok(())
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                st.objs.insert(fr.locals[l.as_usize()], Val::Uninit);
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => {
                    let v = self.operand(fr, st, op)?;
                    let c = self.as_cond(st, &v)?;
                    self.stat("assumptions checked");
                    match st.eval(&c) {
                        Some(true) => Ok(()),
                        Some(false) => Err(Need::Ub("assume(false)".into())),
                        None => Err(Need::Split(c)),
                    }
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let src = self.operand(fr, st, &c.src)?;
                    let dst = self.operand(fr, st, &c.dst)?;
                    let n = self.operand(fr, st, &c.count)?;
                    self.mem_copy(st, &src, &dst, &n, true)
                }
            },
            _ => Ok(()),
        }
    }

    pub fn place_ty(&self, fr: &Frame<'tcx>, p: &Place<'tcx>) -> Ty<'tcx> {
        let t = p.ty(&fr.info.body.local_decls, self.tcx).ty;
        self.mono(&fr.info.inst, t)
    }
    pub fn op_ty(&self, fr: &Frame<'tcx>, o: &Operand<'tcx>) -> Ty<'tcx> {
        let t = o.ty(&fr.info.body.local_decls, self.tcx);
        self.mono(&fr.info.inst, t)
    }

    pub fn eval_place(&mut self, fr: &Frame<'tcx>, st: &mut State, p: &Place<'tcx>) -> R<Pv> {
        let mut cur = Pv::Loc(Loc::obj(fr.locals[p.local.as_usize()]));
        let mut pty = mir::PlaceTy::from_ty(fr.info.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let ty = self.mono(&fr.info.inst, pty.ty);
            cur = self.project(fr, st, cur, ty, e)?;
            pty = pty.projection_ty(self.tcx, e);
        }
        Ok(cur)
    }

    pub fn project(&mut self, fr: &Frame<'tcx>, st: &mut State, cur: Pv, ty: Ty<'tcx>, e: PlaceElem<'tcx>) -> R<Pv> {
        match e {
            ProjectionElem::Deref => {
                let v = self.read_pv(st, &cur, ty)?;
                self.deref(st, &cur, &v, ty)
            }
            ProjectionElem::Field(f, _) => match cur {
                Pv::Loc(l) => {
                    // make sure a lazily unknown struct has fields
                    if matches!(st.load(&l), Some(Val::Top)) {
                        let v = self.havoc(st, ty, "?", 0);
                        if !matches!(v, Val::Top) {
                            st.store(&l, v);
                        }
                    }
                    match st.load(&l) {
                        Some(Val::Agg(_)) | Some(Val::Enum(..)) | Some(Val::Uninit) | Some(Val::Top) => {}
                        Some(v) if self.is_transparent(ty) => {
                            // value of a one-field wrapper kept unwrapped
                            let v = v.clone();
                            let _ = v;
                            return Ok(Pv::Loc(l));
                        }
                        _ => {}
                    }
                    Ok(Pv::Loc(l.push(Proj::Field(f.as_u32()))))
                }
                _ => Err(Need::Unsup("field of an element".into())),
            },
            ProjectionElem::Downcast(_, v) => match cur {
                Pv::Loc(l) => Ok(Pv::Loc(l.push(Proj::Variant(v.as_u32())))),
                _ => Err(Need::Unsup("downcast of an element".into())),
            },
            ProjectionElem::Index(l) => {
                let i = self.read_pv(st, &Pv::Loc(Loc::obj(fr.locals[l.as_usize()])), self.tcx.types.usize)?;
                let i = self.as_int(st, &i)?;
                self.index(st, cur, i)
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let o = Lin::k(offset as i128);
                let i = if from_end { self.pv_len(st, &cur, ty)?.sub(&o) } else { o };
                self.index(st, cur, i)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let len = self.pv_len(st, &cur, ty)?;
                let end = if from_end { len.addk(-(to as i128)) } else { Lin::k(to as i128) };
                let f = Lin::k(from as i128);
                match cur {
                    Pv::Un { base, off, .. } => Ok(Pv::Un { base, off: off.add(&f), len: end.sub(&f) }),
                    Pv::Loc(l) => Ok(Pv::Un { base: Base::Place(l), off: f.clone(), len: end.sub(&f) }),
                    _ => Err(Need::Unsup("subslice".into())),
                }
            }
            _ => Ok(cur),
        }
    }
    pub fn is_transparent(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            ty::Adt(d, _) => d.is_struct() || d.is_union(),
            ty::Closure(..) => true,
            ty::Tuple(t) => t.len() == 1,
            _ => false,
        }
    }
    pub fn deref(&mut self, st: &mut State, cur: &Pv, v: &Val, ty: Ty<'tcx>) -> R<Pv> {
        match v {
            Val::Ref(l) => Ok(Pv::Loc(l.clone())),
            Val::Slice { base, off, len } => Ok(Pv::Un { base: base.clone(), off: off.clone(), len: len.clone() }),
            Val::BPtr { base, off } => {
                if let (Base::Place(l), Some(k)) = (base, off.is_const()) {
                    if let Some(Val::Agg(f)) = st.load(l) {
                        if (k as usize) < f.len() {
                            return Ok(Pv::Loc(l.push(Proj::Index(k as u32))));
                        }
                    }
                }
                Ok(Pv::El { base: base.clone(), off: off.clone() })
            }
            Val::Agg(f) if f.len() >= 1 => {
                let inner = f[0].clone();
                self.deref(st, cur, &inner, ty)
            }
            Val::Opaque(_) | Val::Top | Val::User(_) => {
                let pointee = match ty.kind() {
                    ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
                    _ => return Err(Need::Unsup(format!("dereference of {:?}: {}", v, ty))),
                };
                let nv = self.havoc_ref(st, pointee, "?");
                if let Pv::Loc(l) = cur {
                    st.store(l, nv.clone());
                }
                match nv {
                    Val::Ref(l) => Ok(Pv::Loc(l)),
                    Val::Slice { base, off, len } => Ok(Pv::Un { base, off, len }),
                    _ => Err(Need::Unsup(format!("dereference of {}", ty))),
                }
            }
            Val::Uninit => Err(Need::Unsup(format!("dereference of an uninitialised {}", ty))),
            v => Err(Need::Unsup(format!("dereference of {:?}", v))),
        }
    }
    pub fn pv_len(&mut self, st: &mut State, cur: &Pv, ty: Ty<'tcx>) -> R<Lin> {
        match cur {
            Pv::Un { len, .. } => Ok(len.clone()),
            Pv::Loc(_) => match ty.kind() {
                ty::Array(_, n) => self.ct_lin(st, *n),
                _ => Err(Need::Unsup("length".into())),
            },
            _ => Err(Need::Unsup("length".into())),
        }
    }
    pub fn index(&mut self, st: &mut State, cur: Pv, i: Lin) -> R<Pv> {
        let (base, i) = match cur {
            Pv::Un { base, off, .. } => (base, off.add(&i)),
            Pv::Loc(l) => (Base::Place(l), i),
            Pv::El { .. } => return Err(Need::Unsup("index of an element".into())),
        };
        if let Base::Place(l) = &base {
            if let Some(Val::Agg(f)) = st.load(l) {
                let n = f.len();
                match i.is_const() {
                    Some(k) if k >= 0 && (k as usize) < n => return Ok(Pv::Loc(l.push(Proj::Index(k as u32)))),
                    _ => {
                        for k in 0..n {
                            let c = Cond::eq(&i, &Lin::k(k as i128));
                            match st.eval(&c) {
                                Some(true) => return Ok(Pv::Loc(l.push(Proj::Index(k as u32)))),
                                Some(false) => {}
                                None => return Err(Need::Split(c)),
                            }
                        }
                        return Err(Need::Unsup("array index".into()));
                    }
                }
            }
        }
        Ok(Pv::El { base, off: i })
    }

    pub fn read_pv(&mut self, st: &mut State, pv: &Pv, ty: Ty<'tcx>) -> R<Val> {
        match pv {
            Pv::Loc(l) => {
                let v = match st.load(l) {
                    Some(v) => v.clone(),
                    None => {
                        return Err(Need::Unsup(format!("unreadable place {:?}: {} = {:?}", l, ty, st.objs.get(&l.obj))));
                    }
                };
                match v {
                    Val::Top => {
                        let n = self.havoc(st, ty, "?", 0);
                        if !matches!(n, Val::Top) {
                            st.store(l, n.clone());
                        }
                        Ok(n)
                    }
                    Val::Uninit => Ok(self.zst(ty).unwrap_or(Val::Uninit)),
                    Val::Agg(ref f) if f.len() == 1 && !matches!(ty.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Closure(..) | ty::Array(..)) => {
                        Ok(f[0].clone())
                    }
                    v => Ok(v),
                }
            }
            Pv::El { base, off } => self.read_byte(st, base, off, ty),
            Pv::Un { .. } => Err(Need::Unsup("read of an unsized place".into())),
        }
    }
    pub fn zst(&self, ty: Ty<'tcx>) -> Option<Val> {
        match ty.kind() {
            ty::FnDef(..) => Some(Val::unit()),
            ty::Tuple(t) if t.is_empty() => Some(Val::unit()),
            ty::Tuple(t) => {
                let v: Option<Vec<Val>> = t.iter().map(|t| self.zst(t)).collect();
                v.map(Val::Agg)
            }
            ty::Closure(_, a) if a.as_closure().upvar_tys().is_empty() => Some(Val::unit()),
            ty::Adt(d, a) if d.is_struct() => {
                let v: Option<Vec<Val>> =
                    d.non_enum_variant().fields.iter().map(|f| self.zst(self.norm_ty(f.ty(self.tcx, a).skip_norm_wip()))).collect();
                v.map(Val::Agg)
            }
            _ => None,
        }
    }
    pub fn norm_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    pub fn read_byte(&mut self, st: &mut State, base: &Base, off: &Lin, ty: Ty<'tcx>) -> R<Val> {
        let cap = st.base_cap(base).ok_or_else(|| Need::Unsup("read through a pointer".into()))?;
        self.stat("S02 memory accesses in bounds");
        for c in [Cond::ge(off, &Lin::k(0)), Cond::lt(off, &cap)] {
            if st.eval(&c) != Some(true) {
                return Err(self.ub_or_split(st, c, format!("read at offset {:?} of {:?} bytes", off, cap)));
            }
        }
        match base {
            Base::Ext(s) => {
                let info = &st.strs[s];
                match info.kind {
                    SKind::Wide => Ok(self.havoc(st, ty, "unit", 0)),
                    _ => {
                        if let (SKind::Lit(l), Some(k)) = (&info.kind, off.is_const()) {
                            return Ok(Val::int(l.as_bytes()[k as usize] as i128));
                        }
                        Ok(Val::Byte(Src::Str(*s), off.clone()))
                    }
                }
            }
            Base::Place(l) => {
                let t = match st.load(l) {
                    Some(Val::Bytes(t)) => t.clone(),
                    _ => return Err(Need::Unsup("element read".into())),
                };
                match st.locate(&t, off)? {
                    Some((_, Src::Zero, _)) => Ok(Val::int(0)),
                    Some((_, src, o)) => {
                        if let Src::Junk(_) = src {
                            if let Some(x) = st.facts.bytes.iter().find(|x| x.0 == src && st.cons.entails_eq(&x.1.sub(&o))) {
                                return Ok(Val::Int(x.2.clone()));
                            }
                        }
                        if let Src::Str(s) = src {
                            if let (SKind::Lit(l), Some(k)) = (&st.strs[&s].kind, o.is_const()) {
                                return Ok(Val::int(l.as_bytes()[k as usize] as i128));
                            }
                        }
                        Ok(Val::Byte(src, o))
                    }
                    None => Err(Need::Ub("read past the end".into())),
                }
            }
            Base::Null => Err(Need::Ub("read through a dangling pointer".into())),
        }
    }
    /// an obligation that is not known to hold: definitely false on some state -> violation
    pub fn ub_or_split(&mut self, st: &State, c: Cond, m: String) -> Need {
        match st.eval(&c) {
            None => Need::Split(c),
            _ => Need::Ub(m),
        }
    }
    pub fn require(&mut self, st: &State, c: Cond, m: impl Fn() -> String) -> R<()> {
        match st.eval(&c) {
            Some(true) => Ok(()),
            Some(false) => Err(Need::Ub(m())),
            None => Err(Need::Split(c)),
        }
    }

    pub fn write_place(&mut self, fr: &Frame<'tcx>, st: &mut State, p: &Place<'tcx>, v: Val) -> R<()> {
        let pv = self.eval_place(fr, st, p)?;
        self.write_pv(st, &pv, v)
    }
    pub fn write_pv(&mut self, st: &mut State, pv: &Pv, v: Val) -> R<()> {
        match pv {
            Pv::Loc(l) => {
                if st.store(l, v) {
                    Ok(())
                } else {
                    Err(Need::Unsup(format!("store to {:?} in {:?}", l, st.objs.get(&l.obj))))
                }
            }
            Pv::El { base, off } => {
                let piece = self.byte_piece(st, &v);
                self.write_bytes(st, base, off, vec![piece])
            }
            Pv::Un { .. } => Err(Need::Unsup("store to an unsized place".into())),
        }
    }
    pub fn byte_piece(&mut self, st: &mut State, v: &Val) -> Piece {
        match v {
            Val::Byte(s, o) => Piece { src: *s, from: o.clone(), to: o.addk(1) },
            Val::Int(l) if l.is_const() == Some(0) => Piece { src: Src::Zero, from: Lin::k(0), to: Lin::k(1) },
            Val::Int(l) if l.is_const().map_or(false, |k| k > 0 && k < 128) => {
                let c = l.is_const().unwrap() as u8 as char;
                let s = st.lit(&c.to_string());
                Piece { src: Src::Str(s), from: Lin::k(0), to: Lin::k(1) }
            }
            v => {
                let j = Src::Junk(fresh_id());
                if let Val::Int(l) = v {
                    st.facts.bytes.push((j, Lin::k(0), l.clone()));
                }
                Piece { src: j, from: Lin::k(0), to: Lin::k(1) }
            }
        }
    }
    pub fn write_bytes(&mut self, st: &mut State, base: &Base, off: &Lin, t: Text) -> R<()> {
        let Base::Place(l) = base else {
            if st.cons.entails_ge(&text_len(&t).neg()) {
                return Ok(());
            }
            return Err(Need::Ub("write through a pointer to shared or foreign data".into()));
        };
        let old = match st.load(l) {
            Some(Val::Bytes(t)) => t.clone(),
            v => return Err(Need::Unsup(format!("byte store into {:?}", v))),
        };
        let n = text_len(&t);
        let cap = text_len(&old);
        let end = off.add(&n);
        self.stat("S02 memory accesses in bounds");
        if st.cons.entails_ge(&n.neg()) {
            return Ok(());
        }
        self.require(st, Cond::ge(off, &Lin::k(0)), || format!("write at offset {:?}", off))?;
        self.require(st, Cond::ge(&cap, &end), || format!("write of bytes {:?}..{:?} into an array of {:?} bytes", off, end, cap))?;
        let mut new = st.text_slice(&old, &Lin::k(0), off)?;
        new.extend(t);
        new.extend(st.text_slice(&old, &end, &cap)?);
        let new = st.norm(&new);
        st.store(l, Val::Bytes(new));
        Ok(())
    }
    pub fn ptr_parts(&self, v: &Val) -> Option<(Base, Lin)> {
        match v {
            Val::BPtr { base, off } => Some((base.clone(), off.clone())),
            Val::Slice { base, off, .. } => Some((base.clone(), off.clone())),
            Val::Ref(l) => Some((Base::Place(l.clone()), Lin::k(0))),
            Val::Agg(f) if f.len() == 1 => self.ptr_parts(&f[0]),
            _ => None,
        }
    }
    pub fn mem_copy(&mut self, st: &mut State, src: &Val, dst: &Val, n: &Val, nonoverlap: bool) -> R<()> {
        let n = self.as_int(st, n)?;
        let (Some((sb, so)), Some((db, d0))) = (self.ptr_parts(src), self.ptr_parts(dst)) else {
            return Err(Need::Unsup(format!("copy from {:?} to {:?}", src, dst)));
        };
        let cap = st.base_cap(&sb).ok_or_else(|| Need::Unsup("copy source".into()))?;
        if st.cons.entails_ge(&n.neg()) {
            return Ok(());
        }
        self.stat("S02 memory accesses in bounds");
        self.require(st, Cond::ge(&so, &Lin::k(0)), || "copy source before the start".into())?;
        let send = so.add(&n);
        if st.eval(&Cond::ge(&cap, &send)) != Some(true) {
            // zero-length copies are always fine
            self.require(st, Cond::ge(&n, &Lin::k(1)), || "".into()).map_err(|e| match e {
                Need::Ub(_) => Need::Unsup("negative copy length".into()),
                e => e,
            })?;
            self.require(st, Cond::ge(&cap, &send), || format!("copy reads bytes {:?}..{:?} of {:?}", so, send, cap))?;
        }
        if nonoverlap && sb == db {
            let a = Cond::ge(&d0, &send);
            let b = Cond::ge(&so, &d0.add(&n));
            if st.eval(&a) != Some(true) && st.eval(&b) != Some(true) {
                self.require(st, Cond::ge(&n, &Lin::k(1)), || "".into()).map_err(|e| match e {
                    Need::Ub(_) => Need::Unsup("negative copy length".into()),
                    e => e,
                })?;
                if st.eval(&a).is_none() {
                    return Err(Need::Split(a));
                }
                self.require(st, b, || format!("overlapping ranges {:?} and {:?} (+{:?}) in copy_nonoverlapping", so, d0, n))?;
            }
        }
        let t = st.slice_text(&sb, &so, &n)?;
        self.write_bytes(st, &db, &d0, t)
    }

    // ------------------------------------------------------------------------------------------ operands

    pub fn operand(&mut self, fr: &Frame<'tcx>, st: &mut State, o: &Operand<'tcx>) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let ty = self.place_ty(fr, p);
                let pv = self.eval_place(fr, st, p)?;
                self.read_pv(st, &pv, ty)
            }
            Operand::Constant(c) => self.constant(fr, st, c),
            Operand::RuntimeChecks(k) => Ok(Val::b(match k {
                RuntimeChecks::OverflowChecks => self.overflow_checks,
                _ => false,
            })),
        }
    }
    pub fn constant(&mut self, fr: &Frame<'tcx>, st: &mut State, c: &ConstOperand<'tcx>) -> R<Val> {
        let k = self.mono(&fr.info.inst, c.const_);
        match k {
            Const::Ty(ty, ct) => {
                if int_range(ty).is_some() {
                    return Ok(Val::Int(self.ct_lin(st, ct)?));
                }
                match k.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.const_val(st, v, ty, 0),
                    Err(_) => Err(Need::Unsup("constant".into())),
                }
            }
            Const::Val(v, ty) => self.const_val(st, v, ty, 0),
            Const::Unevaluated(uv, ty) => {
                // interpret the defining body: this works for generic constants and keeps structure
                let simple = int_range(ty).is_some() || ty.is_char() || ty.is_bool();
                if simple && !has_params(uv.args) {
                    if let Ok(v) = k.eval(self.tcx, self.env, c.span) {
                        return self.const_val(st, v, ty, 0);
                    }
                }
                let inst = if uv.promoted.is_some() {
                    Instance::new_raw(uv.def, uv.args)
                } else {
                    match Instance::try_resolve(self.tcx, self.env, uv.def, uv.args) {
                        Ok(Some(i)) => i,
                        _ => return Ok(self.havoc(st, ty, "const", 0)),
                    }
                };
                if let Some(info) = self.body_info(inst, uv.promoted) {
                    if let Some((s, v)) = self.exec_const(st.clone(), info) {
                        *st = s;
                        return Ok(v);
                    }
                }
                if !has_params(uv.args) {
                    if let Ok(v) = k.eval(self.tcx, self.env, c.span) {
                        return self.const_val(st, v, ty, 0);
                    }
                }
                Err(Need::Unsup(format!("constant {:?}", uv.def)))
            }
        }
    }
    pub fn ct_lin(&mut self, st: &State, ct: ty::Const<'tcx>) -> R<Lin> {
        match ct.kind() {
            ty::ConstKind::Param(p) => match st.ghost.get(p.name.as_str()) {
                Some(Val::Int(l)) => Ok(l.clone()),
                _ => Err(Need::Unsup(format!("const parameter {}", p.name))),
            },
            _ => match ct.try_to_target_usize(self.tcx) {
                Some(k) => Ok(Lin::k(k as i128)),
                None => {
                    let t = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ct)).unwrap_or(ct);
                    match t.try_to_target_usize(self.tcx) {
                        Some(k) => Ok(Lin::k(k as i128)),
                        None => Err(Need::Unsup(format!("array length {:?}", ct))),
                    }
                }
            },
        }
    }
    pub fn scalar(&mut self, st: &mut State, bits: u128, ty: Ty<'tcx>) -> Option<Val> {
        Some(match ty.kind() {
            ty::Bool => Val::b(bits != 0),
            ty::Char => Val::Char(st.const_char(char::from_u32(bits as u32)?)),
            ty::Int(_) | ty::Uint(_) => Val::int(sext(bits, ty)),
            _ => return None,
        })
    }
    pub fn const_val(&mut self, st: &mut State, v: ConstValue, ty: Ty<'tcx>, depth: u32) -> R<Val> {
        if depth > 6 {
            return Ok(Val::Top);
        }
        match v {
            ConstValue::ZeroSized => match self.zst(ty) {
                Some(v) => Ok(v),
                None => match ty.kind() {
                    ty::Array(..) => Ok(Val::Agg(vec![])),
                    ty::Adt(d, _) if d.is_enum() => self.const_adt(st, v, ty, depth),
                    _ => Ok(Val::unit()),
                },
            },
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                if let Some(v) = self.scalar(st, bits, ty) {
                    return Ok(v);
                }
                match ty.kind() {
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.const_adt(st, v, ty, depth),
                    ty::RawPtr(..) | ty::Ref(..) => Ok(Val::BPtr { base: Base::Null, off: Lin::k(0) }),
                    _ => Ok(Val::Top),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match ty.kind() {
                    ty::Ref(_, t, _) | ty::RawPtr(t, _) => match self.tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Memory(_)) => {
                            let inner = self.const_val(st, ConstValue::Indirect { alloc_id: id, offset: off }, *t, depth + 1)?;
                            let o = st.new_obj(inner);
                            Ok(Val::Ref(Loc::obj(o)))
                        }
                        _ => {
                            let o = st.new_obj(Val::Top);
                            Ok(Val::Ref(Loc::obj(o)))
                        }
                    },
                    ty::Adt(..) => self.const_adt(st, v, ty, depth),
                    _ => Ok(Val::Top),
                }
            }
            ConstValue::Slice { .. } => {
                let elem = match ty.kind() {
                    ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
                    _ => return Ok(Val::Top),
                };
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    let is_bytes = elem.is_str() || matches!(elem.kind(), ty::Slice(t) if *t == self.tcx.types.u8);
                    if is_bytes {
                        let s = match std::str::from_utf8(b) {
                            Ok(l) => st.lit(l),
                            Err(_) => {
                                let s = st.new_str(SKind::Raw, "bytes");
                                let l = st.str_len(s);
                                st.add_equality(&l.addk(-(b.len() as i128)));
                                s
                            }
                        };
                        return Ok(Val::Slice { base: Base::Ext(s), off: Lin::k(0), len: Lin::k(b.len() as i128) });
                    }
                }
                Ok(self.havoc_ref(st, elem, "const"))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                match ty.kind() {
                    ty::Array(t, n) if *t == self.tcx.types.u8 => {
                        if let (Some(GlobalAlloc::Memory(a)), Some(n)) =
                            (self.tcx.try_get_global_alloc(alloc_id), n.try_to_target_usize(self.tcx))
                        {
                            let o = offset.bytes_usize();
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize).to_vec();
                            if b.iter().all(|x| *x == 0) {
                                return Ok(Val::Bytes(vec![Piece { src: Src::Zero, from: Lin::k(0), to: Lin::k(n as i128) }]));
                            }
                            if let Ok(l) = std::str::from_utf8(&b) {
                                let s = st.lit(l);
                                return Ok(Val::Bytes(vec![Piece { src: Src::Str(s), from: Lin::k(0), to: Lin::k(n as i128) }]));
                            }
                            return Ok(Val::Bytes(vec![Piece { src: Src::Junk(fresh_id()), from: Lin::k(0), to: Lin::k(n as i128) }]));
                        }
                        Ok(Val::Top)
                    }
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.const_adt(st, v, ty, depth),
                    ty::Int(_) | ty::Uint(_) | ty::Char | ty::Bool => {
                        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                            if let Ok(l) = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ty)) {
                                let o = offset.bytes_usize();
                                let n = l.size.bytes_usize();
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec();
                                let mut x: u128 = 0;
                                for (i, y) in b.iter().enumerate() {
                                    x |= (*y as u128) << (8 * i);
                                }
                                if let Some(v) = self.scalar(st, x, ty) {
                                    return Ok(v);
                                }
                            }
                        }
                        Ok(self.havoc(st, ty, "const", 0))
                    }
                    ty::Ref(_, t, _) if !t.is_str() && !t.is_slice() => {
                        let r = self.const_adt(st, v, ty, depth);
                        match r {
                            Ok(Val::Top) | Err(_) => Ok(self.havoc(st, ty, "const", 0)),
                            r => r,
                        }
                    }
                    _ => Ok(self.havoc(st, ty, "const", 0)),
                }
            }
            _ => Ok(self.havoc(st, ty, "const", 0)),
        }
    }
    pub fn const_adt(&mut self, st: &mut State, v: ConstValue, ty: Ty<'tcx>, depth: u32) -> R<Val> {
        if !matches!(ty.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) || has_params_ty(ty) {
            return Ok(self.havoc(st, ty, "const", 0));
        }
        if let ty::Adt(d, _) = ty.kind() {
            if d.is_union() {
                return Ok(Val::Top);
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, ty) {
            Some(d) => {
                let mut f = vec![];
                for (cv, t) in d.fields {
                    f.push(self.const_val(st, *cv, *t, depth + 1)?);
                }
                match (d.variant, ty.kind()) {
                    (Some(vi), ty::Adt(a, _)) if a.is_enum() => Ok(Val::Enum(vi.as_u32(), f)),
                    _ => Ok(Val::Agg(f)),
                }
            }
            None => Ok(self.havoc(st, ty, "const", 0)),
        }
    }

    // ------------------------------------------------------------------------------------------ conversions

    pub fn as_int(&mut self, st: &mut State, v: &Val) -> R<Lin> {
        match v {
            Val::Int(l) => Ok(l.clone()),
            Val::Byte(s, o) => self.byte_value(st, *s, o),
            Val::ByteOp(s, o, op) => {
                let b = self.byte_value(st, *s, o)?;
                match op {
                    ByteOp::I8 => Ok(if st.decide(&Cond::ge(&Lin::k(127), &b))? { b } else { b.addk(-256) }),
                    ByteOp::AndC0 => {
                        for k in [192, 128, 64] {
                            if st.decide(&Cond::ge(&b, &Lin::k(k)))? {
                                return Ok(Lin::k(k));
                            }
                        }
                        Ok(Lin::k(0))
                    }
                }
            }
            Val::Bool(c) => Ok(Lin::k(st.decide(c)? as i128)),
            Val::Char(c) => Ok(st.chars[c].code.clone()),
            Val::Agg(f) if f.len() == 1 => {
                let x = f[0].clone();
                self.as_int(st, &x)
            }
            v => Err(Need::Unsup(format!("{:?} as an integer", v))),
        }
    }
    /// the number stored in a byte; bytes of valid text tell character boundaries
    fn byte_value(&mut self, st: &mut State, src: Src, o: &Lin) -> R<Lin> {
        let known = st.facts.bytes.iter().find(|x| x.0 == src && st.cons.entails_eq(&x.1.sub(o))).map(|x| x.2.clone());
        let b = match known {
            Some(b) => b,
            None => {
                let b = match src {
                    Src::Zero => Lin::k(0),
                    _ => st.fresh_int("byte", 0, 255),
                };
                st.facts.bytes.push((src, o.clone(), b.clone()));
                b
            }
        };
        if let Src::Str(s) = src {
            if st.str_valid(s) {
                if !st.decide(&Cond::Bnd(s, o.clone()))? {
                    st.cons.add_ge(b.addk(-128));
                    st.cons.add_ge(b.neg().addk(191));
                } else if st.decide(&Cond::ge(&Lin::k(127), &b))? {
                    if !st.decide(&Cond::Bnd(s, o.addk(1)))? {
                        st.dead = true;
                    }
                } else {
                    st.cons.add_ge(b.addk(-194));
                    st.cons.add_ge(b.neg().addk(244));
                    if st.decide(&Cond::Bnd(s, o.addk(1)))? {
                        st.dead = true;
                    }
                }
            }
        }
        Ok(b)
    }
    pub fn as_cond(&mut self, st: &mut State, v: &Val) -> R<Cond> {
        match v {
            Val::Bool(c) => Ok(c.clone()),
            Val::Int(l) => Ok(Cond::eq(l, &Lin::k(0)).not()),
            Val::Top => Ok(Cond::Opaque(fresh_id())),
            v => {
                let _ = st;
                Err(Need::Unsup(format!("{:?} as a condition", v)))
            }
        }
    }

    /// reduce a mathematical result into the range of the type
    pub fn wrap(&mut self, st: &mut State, l: Lin, ty: Ty<'tcx>) -> R<Lin> {
        let Some((lo, hi, bits)) = int_range(ty) else { return Ok(l) };
        let m = 1i128 << bits.min(120);
        if let Some(k) = l.is_const() {
            return Ok(Lin::k((k - lo).rem_euclid(m) + lo));
        }
        if !st.decide(&Cond::ge(&l, &Lin::k(lo)))? {
            if st.decide(&Cond::ge(&l, &Lin::k(lo - m)))? {
                return Ok(l.addk(m));
            }
        } else {
            if st.decide(&Cond::ge(&Lin::k(hi), &l))? {
                return Ok(l);
            }
            if st.decide(&Cond::ge(&Lin::k(hi + m), &l))? {
                return Ok(l.addk(-m));
            }
        }
        let q = new_sym("wraps");
        let r = st.fresh_int("wrapped", lo, hi);
        st.cons.add_eq(l.sub(&r).sub(&Lin::s(q).scale(m)));
        Ok(r)
    }

    pub fn rvalue(&mut self, fr: &Frame<'tcx>, st: &mut State, rv: &Rvalue<'tcx>) -> R<Val> {
        match rv {
            Rvalue::Use(o, _) => self.operand(fr, st, o),
            Rvalue::CopyForDeref(p) => {
                let ty = self.place_ty(fr, p);
                let pv = self.eval_place(fr, st, p)?;
                self.read_pv(st, &pv, ty)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                if let Rvalue::Reborrow(..) = rv {
                    let ty = self.place_ty(fr, p);
                    let pv = self.eval_place(fr, st, p)?;
                    return self.read_pv(st, &pv, ty);
                }
                let pv = self.eval_place(fr, st, p)?;
                Ok(match pv {
                    Pv::Loc(l) => {
                        // zero-sized locals may never have been written
                        if l.path.is_empty() && matches!(st.objs.get(&l.obj), Some(Val::Uninit) | None) {
                            let ty = self.place_ty(fr, p);
                            if let Some(z) = self.zst(ty) {
                                st.objs.insert(l.obj, z);
                            }
                        }
                        Val::Ref(l)
                    }
                    Pv::Un { base, off, len } => Val::Slice { base, off, len },
                    Pv::El { base, off } => Val::BPtr { base, off },
                })
            }
            Rvalue::Repeat(o, n) => {
                let ety = self.op_ty(fr, o);
                let n = self.mono(&fr.info.inst, *n);
                let n = self.ct_lin(st, n)?;
                let v = self.operand(fr, st, o)?;
                if ety == self.tcx.types.u8 {
                    let p = match &v {
                        Val::Int(l) if l.is_const() == Some(0) => Piece { src: Src::Zero, from: Lin::k(0), to: n },
                        _ => Piece { src: Src::Junk(fresh_id()), from: Lin::k(0), to: n },
                    };
                    return Ok(Val::Bytes(vec![p]));
                }
                match n.is_const() {
                    Some(k) if k <= 16 => Ok(Val::Agg(vec![v; k as usize])),
                    _ => Ok(Val::Top),
                }
            }
            Rvalue::Cast(kind, o, ty) => {
                let from = self.op_ty(fr, o);
                let ty = self.mono(&fr.info.inst, *ty);
                let v = self.operand(fr, st, o)?;
                self.cast(st, *kind, v, from, ty)
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = (&b.0, &b.1);
                let ty = self.op_ty(fr, x);
                let tyb = self.op_ty(fr, y);
                let a = self.operand(fr, st, x)?;
                let b = self.operand(fr, st, y)?;
                self.binop(st, *op, a, b, ty, tyb)
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = self.op_ty(fr, o);
                let v = self.operand(fr, st, o)?;
                match op {
                    UnOp::Not => match v {
                        Val::Bool(c) => Ok(Val::Bool(c.not())),
                        Val::Int(l) => {
                            let (lo, hi, _) = int_range(ty).ok_or_else(|| Need::Unsup("not".into()))?;
                            Ok(Val::Int(if lo < 0 { l.neg().addk(-1) } else { l.neg().addk(hi) }))
                        }
                        Val::Top => Ok(self.havoc(st, ty, "not", 0)),
                        v => Err(Need::Unsup(format!("not {:?}", v))),
                    },
                    UnOp::Neg => {
                        let l = self.as_int(st, &v)?;
                        Ok(Val::Int(self.wrap(st, l.neg(), ty)?))
                    }
                    UnOp::PtrMetadata => match v {
                        Val::Slice { len, .. } => Ok(Val::Int(len)),
                        Val::Agg(f) if f.len() >= 1 => match &f[0] {
                            Val::Slice { len, .. } => Ok(Val::Int(len.clone())),
                            _ => Ok(Val::unit()),
                        },
                        _ => Ok(Val::unit()),
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let ty = self.place_ty(fr, p);
                let pv = self.eval_place(fr, st, p)?;
                let Pv::Loc(l) = &pv else { return Err(Need::Unsup("discriminant".into())) };
                let v = match st.load(l) {
                    Some(v) => v.clone(),
                    None => return Err(Need::Unsup("discriminant".into())),
                };
                self.discriminant(st, l, &v, ty)
            }
            Rvalue::Aggregate(kind, fields) => {
                let mut f = vec![];
                for o in fields.iter() {
                    f.push(self.operand(fr, st, o)?);
                }
                match &**kind {
                    AggregateKind::Array(t) => {
                        let t = self.mono(&fr.info.inst, *t);
                        if t == self.tcx.types.u8 {
                            let pieces: Text = f.iter().map(|v| self.byte_piece(st, v)).collect();
                            return Ok(Val::Bytes(st.norm(&pieces)));
                        }
                        Ok(Val::Agg(f))
                    }
                    AggregateKind::Tuple | AggregateKind::Closure(..) | AggregateKind::Coroutine(..) | AggregateKind::CoroutineClosure(..) => {
                        Ok(Val::Agg(f))
                    }
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        if def.is_enum() {
                            Ok(Val::Enum(v.as_u32(), f))
                        } else if let Some(a) = active {
                            let mut g = vec![Val::Uninit; a.as_usize() + 1];
                            g[a.as_usize()] = f.pop().unwrap_or(Val::Uninit);
                            Ok(Val::Agg(g))
                        } else {
                            Ok(Val::Agg(f))
                        }
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.mono(&fr.info.inst, *t);
                        if t.is_str() || t.is_slice() {
                            let len = self.as_int(st, &f[1])?;
                            match self.ptr_parts(&f[0]) {
                                Some((base, off)) => Ok(Val::Slice { base, off, len }),
                                None => Err(Need::Unsup("raw slice".into())),
                            }
                        } else {
                            Ok(f[0].clone())
                        }
                    }
                }
            }
            Rvalue::ThreadLocalRef(_) => Err(Need::Unsup("thread local".into())),
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(fr, st, o),
        }
    }

    /// the discriminant of a type without run-time contents: one inhabited variant and no data in it
    fn only_variant(&self, ty: Ty<'tcx>) -> Option<Val> {
        let ty::Adt(d, args) = ty.kind() else { return None };
        if !d.is_enum() {
            return None;
        }
        let never = |t: Ty<'tcx>| t.is_never() || matches!(t.kind(), ty::Adt(d, _) if d.is_enum() && d.variants().is_empty());
        let mut it = d.variants().iter_enumerated().filter(|(_, v)| {
            !v.fields.iter().any(|f| never(self.norm_ty(f.ty(self.tcx, args).skip_norm_wip())))
        });
        let (k, v) = it.next()?;
        if it.next().is_some() || !v.fields.is_empty() {
            return None;
        }
        let dv = d.discriminant_for_variant(self.tcx, k);
        Some(Val::int(sext(dv.val, dv.ty)))
    }

    pub fn discriminant(&mut self, st: &mut State, l: &Loc, v: &Val, ty: Ty<'tcx>) -> R<Val> {
        match v {
            Val::Enum(k, _) => {
                if let ty::Adt(d, _) = ty.kind() {
                    if d.is_enum() {
                        let dv = d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(*k));
                        return Ok(Val::int(sext(dv.val, dv.ty)));
                    }
                }
                Ok(Val::int(*k as i128))
            }
            Val::SymOrd(a, b, rev) => {
                let mut cases = vec![];
                for k in 0..3u32 {
                    let o = k as i8 - 1;
                    let o = if *rev { -o } else { o };
                    let c = Cond::OrdIs(a.clone(), b.clone(), o);
                    if st.eval(&c) != Some(false) {
                        cases.push((l.clone(), Val::Enum(k, vec![]), c));
                    }
                }
                Err(Need::Cases(cases))
            }
            Val::Uninit if self.only_variant(ty).is_some() => Ok(self.only_variant(ty).unwrap()),
            Val::Top | Val::Opaque(_) | Val::User(_) => {
                let ty::Adt(d, args) = ty.kind() else { return Err(Need::Unsup(format!("discriminant of {}", ty))) };
                if !d.is_enum() {
                    return Err(Need::Unsup(format!("discriminant of {}", ty)));
                }
                let mut cases = vec![];
                for (vi, vd) in d.variants().iter_enumerated() {
                    let mut f = vec![];
                    let mut uninhabited = false;
                    for fd in vd.fields.iter() {
                        let t = self.norm_ty(fd.ty(self.tcx, args).skip_norm_wip());
                        if t.is_never() || matches!(t.kind(), ty::Adt(d, _) if d.is_enum() && d.variants().is_empty()) {
                            uninhabited = true;
                        }
                        f.push(self.havoc(st, t, "?", 1));
                    }
                    if !uninhabited {
                        cases.push((l.clone(), Val::Enum(vi.as_u32(), f), Cond::T));
                    }
                }
                Err(Need::Cases(cases))
            }
            v => Err(Need::Unsup(format!("discriminant of {:?}", v))),
        }
    }

    pub fn cast(&mut self, st: &mut State, kind: CastKind, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        match kind {
            CastKind::IntToInt => {
                if let Val::Byte(s, o) = &v {
                    return Ok(match to.kind() {
                        ty::Int(i) if i.bit_width() == Some(8) => Val::ByteOp(*s, o.clone(), ByteOp::I8),
                        ty::Uint(_) => v.clone(),
                        ty::Int(_) => v.clone(),
                        _ => self.havoc(st, to, "byte", 0),
                    });
                }
                if let Val::Char(c) = &v {
                    // tie the scalar value to the encoded length
                    let ci = st.chars[c].clone();
                    if ci.code.is_const().is_none() {
                        let lim = [0i128, 0x80, 0x800, 0x10000, 0x110000];
                        for n in 1..=3i128 {
                            if st.decide(&Cond::eq(&ci.len, &Lin::k(n)))? {
                                st.cons.add_ge(ci.code.addk(-lim[n as usize - 1]));
                                st.cons.add_ge(ci.code.neg().addk(lim[n as usize] - 1));
                                return Ok(Val::Int(self.wrap(st, ci.code, to)?));
                            }
                        }
                        st.cons.add_ge(ci.code.addk(-lim[3]));
                    }
                    return Ok(Val::Int(self.wrap(st, ci.code, to)?));
                }
                if to.is_char() {
                    let l = self.as_int(st, &v)?;
                    return Ok(Val::Char(self.char_from_code(st, l)?));
                }
                if let Val::Enum(..) = &v {
                    let o = st.new_obj(v.clone());
                    let d = self.discriminant(st, &Loc::obj(o), &v, from)?;
                    let l = self.as_int(st, &d)?;
                    return Ok(Val::Int(self.wrap(st, l, to)?));
                }
                let l = match &v {
                    Val::Top => return Ok(self.havoc(st, to, "cast", 0)),
                    v => self.as_int(st, v)?,
                };
                Ok(Val::Int(self.wrap(st, l, to)?))
            }
            CastKind::PointerCoercion(pc, _) => {
                use rustc_middle::ty::adjustment::PointerCoercion::*;
                match pc {
                    Unsize => {
                        let inner = |t: Ty<'tcx>| match t.kind() {
                            ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(*t),
                            _ => None,
                        };
                        match (inner(from).map(|t| *t.kind()), inner(to).map(|t| *t.kind())) {
                            (Some(ty::Array(_, n)), Some(ty::Slice(_))) => {
                                let n = self.ct_lin(st, n)?;
                                match v {
                                    Val::Ref(l) => {
                                        // a lazily unknown array becomes a byte array
                                        Ok(Val::Slice { base: Base::Place(l), off: Lin::k(0), len: n })
                                    }
                                    Val::Slice { .. } => Ok(v),
                                    Val::BPtr { base, off } => Ok(Val::Slice { base, off, len: n }),
                                    v => Err(Need::Unsup(format!("unsize {:?}", v))),
                                }
                            }
                            _ => Ok(v),
                        }
                    }
                    ReifyFnPointer(_) | ClosureFnPointer(_) => Ok(Val::Opaque(fresh_id())),
                    _ => Ok(v),
                }
            }
            CastKind::PtrToPtr | CastKind::Subtype | CastKind::FnPtrToPtr | CastKind::BoxDerefTransmute => {
                let thin = |t: Ty<'tcx>| match t.kind() {
                    ty::RawPtr(t, _) | ty::Ref(_, t, _) => !(t.is_str() || t.is_slice()),
                    _ => false,
                };
                match (&v, thin(to)) {
                    (Val::Slice { base, off, .. }, true) => Ok(Val::BPtr { base: base.clone(), off: off.clone() }),
                    (Val::Ref(l), true) => {
                        // pointer to an array seen as a pointer to its first byte
                        let elem_u8 = matches!(to.kind(), ty::RawPtr(t, _) if *t == self.tcx.types.u8);
                        if elem_u8 && matches!(st.load(l), Some(Val::Bytes(_))) {
                            return Ok(Val::BPtr { base: Base::Place(l.clone()), off: Lin::k(0) });
                        }
                        Ok(v)
                    }
                    _ => Ok(v),
                }
            }
            CastKind::Transmute => self.transmute(st, v, from, to),
            CastKind::PointerExposeProvenance => Ok(self.havoc(st, to, "addr", 0)),
            _ => Ok(self.havoc(st, to, "cast", 0)),
        }
    }
    pub fn char_from_code(&mut self, st: &mut State, l: Lin) -> R<CharId> {
        if let Some(k) = l.is_const() {
            if let Some(c) = char::from_u32(k as u32) {
                return Ok(st.const_char(c));
            }
        }
        for (id, c) in &st.chars {
            if c.code == l {
                return Ok(*id);
            }
        }
        let c = st.fresh_char("from code");
        let code = st.chars[&c].code.clone();
        st.add_equality(&code.sub(&l));
        Ok(c)
    }
    pub fn transmute(&mut self, st: &mut State, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        if from == to {
            return Ok(v);
        }
        let is_ptr = |t: Ty<'tcx>| matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..));
        if is_ptr(from) && is_ptr(to) {
            return Ok(v);
        }
        if int_range(to).is_some() {
            return match &v {
                Val::Int(l) => Ok(Val::Int(self.wrap(st, l.clone(), to)?)),
                Val::Bool(_) => Ok(Val::Int(self.as_int(st, &v)?)),
                Val::Char(_) => self.cast(st, CastKind::IntToInt, v, from, to),
                Val::Enum(..) | Val::SymOrd(..) => {
                    let o = st.new_obj(v.clone());
                    match self.discriminant(st, &Loc::obj(o), &v, from) {
                        Ok(d) => Ok(d),
                        Err(Need::Cases(c)) => {
                            // decide one of the conditions
                            for (_, _, k) in &c {
                                if st.eval(k).is_none() {
                                    return Err(Need::Split(k.clone()));
                                }
                            }
                            for (_, val, k) in &c {
                                if st.eval(k) == Some(true) {
                                    if let Val::Enum(i, _) = val {
                                        return Ok(Val::int(*i as i128 - 1));
                                    }
                                }
                            }
                            Err(Need::Unsup("ordering".into()))
                        }
                        Err(e) => Err(e),
                    }
                }
                Val::Agg(f) if f.len() == 1 => {
                    let x = f[0].clone();
                    self.transmute(st, x, from, to).or_else(|_| Ok(self.havoc(st, to, "transmute", 0)))
                }
                Val::Byte(..) => Ok(v),
                _ => Ok(self.havoc(st, to, "transmute", 0)),
            };
        }
        match (to.kind(), &v) {
            (ty::Char, Val::Int(l)) => Ok(Val::Char(self.char_from_code(st, l.clone())?)),
            (ty::Bool, Val::Int(l)) => Ok(Val::Bool(Cond::eq(l, &Lin::k(0)).not())),
            (ty::Adt(d, _), Val::Int(l)) if d.is_enum() => {
                for (vi, dv) in d.discriminants(self.tcx) {
                    let k = sext(dv.val, dv.ty);
                    if st.decide(&Cond::eq(l, &Lin::k(k)))? {
                        return Ok(Val::Enum(vi.as_u32(), vec![]));
                    }
                }
                Err(Need::Ub("invalid enum value".into()))
            }
            (ty::Adt(d, _), _) if d.is_struct() && is_ptr(from) => Ok(Val::Agg(vec![v])),
            (ty::Adt(d, args), _) if d.is_struct() && !matches!(v, Val::Agg(_)) => {
                // wrap a scalar into a transparent struct
                let fs: Vec<Ty<'tcx>> =
                    d.non_enum_variant().fields.iter().map(|f| self.norm_ty(f.ty(self.tcx, args).skip_norm_wip())).collect();
                if fs.len() == 1 {
                    let inner = self.transmute(st, v, from, fs[0])?;
                    return Ok(Val::Agg(vec![inner]));
                }
                Ok(self.havoc(st, to, "transmute", 0))
            }
            (_, Val::Agg(f)) if f.len() == 1 && (is_ptr(to) || matches!(to.kind(), ty::Bool | ty::Char)) => Ok(f[0].clone()),
            (ty::Adt(d, _), Val::Agg(_)) if d.is_struct() => Ok(v),
            (ty::Array(t, _), Val::Bytes(_)) if *t == self.tcx.types.u8 => Ok(v),
            (ty::Array(t, n), Val::Int(l)) if *t == self.tcx.types.u8 && int_range(from).is_some() => {
                // least significant byte first
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as u32;
                let mut out = vec![];
                if st.decide(&Cond::ge(l, &Lin::k(0)))? && st.decide(&Cond::ge(&Lin::k(255), l))? {
                    out.push(self.byte_piece(st, &v));
                    for _ in 1..n {
                        out.push(self.byte_piece(st, &Val::int(0)));
                    }
                } else {
                    let low = self.wrap(st, l.clone(), self.tcx.types.u8)?;
                    out.push(self.byte_piece(st, &Val::Int(low)));
                    for _ in 1..n {
                        out.push(self.byte_piece(st, &Val::Top));
                    }
                }
                Ok(Val::Bytes(st.norm(&out)))
            }
            (ty::Adt(d, _), Val::Bytes(_)) if d.is_union() || d.is_struct() => Ok(v),
            _ => Ok(self.havoc(st, to, "transmute", 0)),
        }
    }

    pub fn binop(&mut self, st: &mut State, op: BinOp, a: Val, b: Val, ty: Ty<'tcx>, tyb: Ty<'tcx>) -> R<Val> {
        use BinOp::*;
        // pointers
        if matches!(ty.kind(), ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..)) {
            if op == Offset {
                let n = self.as_int(st, &b)?;
                return self.ptr_offset(st, &a, &n, "offset");
            }
            if let (Some((b1, o1)), Some((b2, o2))) = (self.ptr_parts(&a), self.ptr_parts(&b)) {
                if b1 == b2 {
                    return Ok(Val::Bool(match op {
                        Eq => Cond::eq(&o1, &o2),
                        Ne => Cond::eq(&o1, &o2).not(),
                        Lt => Cond::lt(&o1, &o2),
                        Le => Cond::ge(&o2, &o1),
                        Gt => Cond::lt(&o2, &o1),
                        Ge => Cond::ge(&o1, &o2),
                        _ => return Err(Need::Unsup("pointer arithmetic".into())),
                    }));
                }
                if b1 == Base::Null || b2 == Base::Null {
                    return Ok(Val::b(matches!(op, Ne)));
                }
            }
            return Ok(Val::Bool(Cond::Opaque(fresh_id())));
        }
        // booleans
        if ty.is_bool() {
            if let (Val::Bool(x), Val::Bool(y)) = (&a, &b) {
                let (x, y) = (x.clone(), y.clone());
                return Ok(Val::Bool(match op {
                    BitAnd => match (&x, &y) {
                        (Cond::T, _) => y,
                        (_, Cond::T) => x,
                        (Cond::F, _) | (_, Cond::F) => Cond::F,
                        _ => Cond::And(Box::new(x), Box::new(y)),
                    },
                    BitOr => match (&x, &y) {
                        (Cond::F, _) => y,
                        (_, Cond::F) => x,
                        (Cond::T, _) | (_, Cond::T) => Cond::T,
                        _ => Cond::Or(Box::new(x), Box::new(y)),
                    },
                    Eq | Ne | BitXor => {
                        let (k, o) = match (st.eval(&x), st.eval(&y)) {
                            (Some(k), _) => (k, y),
                            (_, Some(k)) => (k, x),
                            _ => return Err(Need::Split(x)),
                        };
                        let same = if k { o } else { o.not() };
                        if op == Eq {
                            same
                        } else {
                            same.not()
                        }
                    }
                    _ => {
                        let (i, j) = (st.decide(&x)?, st.decide(&y)?);
                        match op {
                            Lt => Cond::b(!i & j),
                            Le => Cond::b(!i | j),
                            Gt => Cond::b(i & !j),
                            Ge => Cond::b(i | !j),
                            _ => return Err(Need::Unsup("boolean operator".into())),
                        }
                    }
                }));
            }
        }
        // bytes of strings
        if let (Val::Byte(s, o), Val::Int(k)) = (&a, &b) {
            match (op, k.is_const()) {
                (BitAnd, Some(0xC0)) => return Ok(Val::ByteOp(*s, o.clone(), ByteOp::AndC0)),
                _ => {}
            }
        }
        if let (Val::ByteOp(Src::Str(s), o, bo), Val::Int(k)) = (&a, &b) {
            if st.str_valid(*s) {
                let bnd = Cond::Bnd(*s, o.clone());
                match (bo, op, k.is_const()) {
                    (ByteOp::AndC0, Eq, Some(0x80)) => return Ok(Val::Bool(bnd.not())),
                    (ByteOp::AndC0, Ne, Some(0x80)) => return Ok(Val::Bool(bnd)),
                    (ByteOp::I8, Ge, Some(-64)) | (ByteOp::I8, Gt, Some(-65)) => return Ok(Val::Bool(bnd)),
                    (ByteOp::I8, Lt, Some(-64)) | (ByteOp::I8, Le, Some(-65)) => return Ok(Val::Bool(bnd.not())),
                    _ => {}
                }
            }
        }
        if let (Val::Byte(s, o), Val::Byte(t, p)) = (&a, &b) {
            if s == t && st.cons.entails_eq(&o.sub(p)) && matches!(op, Eq | Ne) {
                return Ok(Val::b(op == Eq));
            }
        }
        if matches!(a, Val::Top) || matches!(b, Val::Top) {
            let rt = match op {
                Eq | Ne | Lt | Le | Gt | Ge => self.tcx.types.bool,
                _ => ty,
            };
            if matches!(op, AddWithOverflow | SubWithOverflow | MulWithOverflow) {
                let v = self.havoc(st, ty, "?", 0);
                return Ok(Val::Agg(vec![v, Val::Bool(Cond::Opaque(fresh_id()))]));
            }
            return Ok(self.havoc(st, rt, "?", 0));
        }
        let _ = tyb;
        let x = self.as_int(st, &a)?;
        let y = self.as_int(st, &b)?;
        let cmp = |c: Cond| Ok(Val::Bool(c));
        match op {
            Eq => cmp(Cond::eq(&x, &y)),
            Ne => cmp(Cond::eq(&x, &y).not()),
            Lt => cmp(Cond::lt(&x, &y)),
            Le => cmp(Cond::ge(&y, &x)),
            Gt => cmp(Cond::lt(&y, &x)),
            Ge => cmp(Cond::ge(&x, &y)),
            Cmp => {
                if st.decide(&Cond::lt(&x, &y))? {
                    Ok(Val::Enum(0, vec![]))
                } else if st.decide(&Cond::eq(&x, &y))? {
                    Ok(Val::Enum(1, vec![]))
                } else {
                    Ok(Val::Enum(2, vec![]))
                }
            }
            Add | Sub | Mul | AddUnchecked | SubUnchecked | MulUnchecked | AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let math = match op {
                    Add | AddUnchecked | AddWithOverflow => x.add(&y),
                    Sub | SubUnchecked | SubWithOverflow => x.sub(&y),
                    _ => match (x.is_const(), y.is_const()) {
                        (Some(k), _) => y.scale(k),
                        (_, Some(k)) => x.scale(k),
                        _ => {
                            let v = self.havoc(st, ty, "product", 0);
                            if matches!(op, MulWithOverflow) {
                                return Ok(Val::Agg(vec![v, Val::Bool(Cond::Opaque(fresh_id()))]));
                            }
                            return Ok(v);
                        }
                    },
                };
                match op {
                    AddUnchecked | SubUnchecked | MulUnchecked => {
                        let (lo, hi, _) = int_range(ty).unwrap();
                        self.stat("S02 unchecked arithmetic in range");
                        self.require(st, Cond::ge(&math, &Lin::k(lo)), || "unchecked arithmetic overflows".into())?;
                        self.require(st, Cond::ge(&Lin::k(hi), &math), || "unchecked arithmetic overflows".into())?;
                        Ok(Val::Int(math))
                    }
                    AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                        let (lo, hi, _) = int_range(ty).unwrap();
                        let ok = st.decide(&Cond::ge(&math, &Lin::k(lo)))? && st.decide(&Cond::ge(&Lin::k(hi), &math))?;
                        if ok {
                            Ok(Val::Agg(vec![Val::Int(math), Val::b(false)]))
                        } else {
                            let w = self.wrap(st, math, ty)?;
                            Ok(Val::Agg(vec![Val::Int(w), Val::b(true)]))
                        }
                    }
                    _ => Ok(Val::Int(self.wrap(st, math, ty)?)),
                }
            }
            Div | Rem => match (x.is_const(), y.is_const()) {
                (Some(p), Some(q)) if q != 0 => Ok(Val::int(if op == Div { p / q } else { p % q })),
                (_, Some(q)) if q > 0 && int_range(ty).map_or(false, |r| r.0 == 0) => {
                    let d = st.fresh_int("quotient", 0, int_range(ty).unwrap().1);
                    let r = st.fresh_int("remainder", 0, q - 1);
                    st.cons.add_eq(x.sub(&d.scale(q)).sub(&r));
                    Ok(Val::Int(if op == Div { d } else { r }))
                }
                _ => Ok(self.havoc(st, ty, "quotient", 0)),
            },
            BitAnd | BitOr | BitXor | Shl | Shr | ShlUnchecked | ShrUnchecked => {
                if let (Some(p), Some(q)) = (x.is_const(), y.is_const()) {
                    let r = match op {
                        BitAnd => p & q,
                        BitOr => p | q,
                        BitXor => p ^ q,
                        Shl | ShlUnchecked => p.checked_shl(q as u32).unwrap_or(0),
                        _ => p >> q.clamp(0, 127),
                    };
                    return Ok(Val::Int(self.wrap(st, Lin::k(r), ty)?));
                }
                if op == BitAnd {
                    if let Some(k) = y.is_const().or(x.is_const()) {
                        if k >= 0 {
                            let z = if y.is_const().is_some() { &x } else { &y };
                            // low-bit mask is the identity on small values
                            if (k & (k + 1)) == 0 && st.cons.entails_ge(&z.neg().addk(k)) && st.cons.entails_ge(z) {
                                return Ok(Val::Int(z.clone()));
                            }
                            return Ok(Val::Int(st.fresh_int("masked", 0, k)));
                        }
                    }
                }
                Ok(self.havoc(st, ty, "bits", 0))
            }
            _ => Err(Need::Unsup(format!("operator {:?}", op))),
        }
    }
    pub fn ptr_offset(&mut self, st: &mut State, p: &Val, n: &Lin, what: &str) -> R<Val> {
        match self.ptr_parts(p) {
            Some((base, off)) => {
                let no = off.add(n);
                if let Some(cap) = st.base_cap(&base) {
                    self.stat("S02 pointer arithmetic in bounds");
                    if n.is_const() != Some(0) {
                        self.require(st, Cond::ge(&no, &Lin::k(0)), || format!("{} moves a pointer before its allocation", what))?;
                        self.require(st, Cond::ge(&cap, &no), || {
                            format!("{} moves a pointer to {:?}, beyond its {:?} bytes", what, no, cap)
                        })?;
                    }
                }
                Ok(Val::BPtr { base, off: no })
            }
            None => Err(Need::Unsup(format!("pointer arithmetic on {:?}", p))),
        }
    }

    // ------------------------------------------------------------------------------------------ unknown values

    pub fn havoc_ref(&mut self, st: &mut State, pointee: Ty<'tcx>, name: &str) -> Val {
        match pointee.kind() {
            ty::Str => {
                let s = st.new_str(SKind::Item, name);
                let len = st.str_len(s);
                Val::Slice { base: Base::Ext(s), off: Lin::k(0), len }
            }
            ty::Slice(t) => {
                let k = if *t == self.tcx.types.u8 { SKind::Raw } else { SKind::Wide };
                let s = st.new_str(k, name);
                let len = st.str_len(s);
                Val::Slice { base: Base::Ext(s), off: Lin::k(0), len }
            }
            ty::Dynamic(..) | ty::Foreign(..) => {
                let o = st.new_obj(Val::Opaque(fresh_id()));
                Val::Ref(Loc::obj(o))
            }
            _ => {
                let v = self.havoc(st, pointee, name, 0);
                let o = st.new_obj(v);
                Val::Ref(Loc::obj(o))
            }
        }
    }
    pub fn is_user_ty(&self, ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), ty::Param(_) | ty::Alias(..))
    }
    pub fn new_user(&mut self, st: &mut State, name: &str, kind: UKind) -> UserId {
        let id = fresh_id();
        st.users.insert(
            id,
            UserInfo {
                kind,
                name: name.into(),
                taken: vec![],
                kept: vec![],
                exhausted: false,
                err: false,
                calls: false,
                memo: Default::default(),
            },
        );
        id
    }
    /// an arbitrary value of the type
    pub fn havoc(&mut self, st: &mut State, ty: Ty<'tcx>, name: &str, depth: u32) -> Val {
        if depth > 8 {
            return Val::Top;
        }
        if let Some((lo, hi, _)) = int_range(ty) {
            return Val::Int(st.fresh_int(name, lo, hi));
        }
        match ty.kind() {
            ty::Bool => Val::Bool(Cond::Opaque(fresh_id())),
            ty::Char => Val::Char(st.fresh_char(name)),
            ty::Tuple(t) => Val::Agg(t.iter().map(|t| self.havoc(st, t, name, depth + 1)).collect()),
            ty::Ref(_, t, _) => self.havoc_ref(st, *t, name),
            ty::RawPtr(..) => Val::Opaque(fresh_id()),
            ty::Array(t, n) if *t == self.tcx.types.u8 => match self.ct_lin(st, *n) {
                Ok(n) => Val::Bytes(vec![Piece { src: Src::Junk(fresh_id()), from: Lin::k(0), to: n }]),
                Err(_) => Val::Top,
            },
            ty::Array(..) => Val::Top,
            ty::Param(_) | ty::Alias(..) => {
                let k = self.user_kind(ty);
                Val::User(self.new_user(st, name, k))
            }
            ty::Adt(d, args) => {
                if self.is_array_string(ty) {
                    return self.array_string(st, ty, name).unwrap_or(Val::Top);
                }
                if d.is_enum() {
                    return Val::Top;
                }
                if d.is_union() || d.is_box() {
                    return Val::Opaque(fresh_id());
                }
                if !d.did().is_local() && !d.non_enum_variant().fields.iter().all(|f| f.vis.is_public()) {
                    // opaque foreign struct, except the small std wrappers used by value
                    let n = self.tcx.item_name(d.did());
                    if !matches!(n.as_str(), "Range" | "RangeFrom" | "RangeTo" | "RangeInclusive" | "RangeToInclusive") {
                        return Val::Opaque(fresh_id());
                    }
                }
                let tys: Vec<Ty<'tcx>> =
                    d.non_enum_variant().fields.iter().map(|f| self.norm_ty(f.ty(self.tcx, args).skip_norm_wip())).collect();
                Val::Agg(tys.into_iter().map(|t| self.havoc(st, t, name, depth + 1)).collect())
            }
            ty::FnDef(..) => Val::unit(),
            ty::Closure(_, a) => {
                let tys: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                Val::Agg(tys.into_iter().map(|t| self.havoc(st, t, name, depth + 1)).collect())
            }
            _ => Val::Opaque(fresh_id()),
        }
    }
    pub fn is_array_string(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            ty::Adt(d, _) => d.did().is_local() && d.is_struct() && self.tcx.item_name(d.did()).as_str() == "ArrayString",
            _ => false,
        }
    }
    /// roles of the fields: (bytes, size)
    pub fn roles(&self, ty: Ty<'tcx>) -> Option<(usize, usize)> {
        let ty::Adt(d, args) = ty.kind() else { return None };
        let mut b = None;
        let mut z = None;
        for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
            let t = f.ty(self.tcx, args).skip_norm_wip();
            match t.kind() {
                ty::Array(e, _) if *e == self.tcx.types.u8 => b = Some(i),
                _ if int_range(t).is_some() => z = Some(i),
                _ => {}
            }
        }
        Some((b?, z?))
    }
    /// a valid string object with arbitrary content
    pub fn array_string(&mut self, st: &mut State, ty: Ty<'tcx>, name: &str) -> Option<Val> {
        let ty::Adt(d, args) = ty.kind() else { return None };
        let (b, z) = self.roles(ty)?;
        let s = st.new_str(SKind::Input, name);
        let len = st.str_len(s);
        let mut vals = vec![];
        for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
            let t = self.norm_ty(f.ty(self.tcx, args).skip_norm_wip());
            if i == b {
                let ty::Array(_, n) = t.kind() else { return None };
                let n = self.ct_lin(st, *n).ok()?;
                st.cons.add_ge(n.sub(&len));
                vals.push(Val::Bytes(vec![
                    st.whole(s),
                    Piece { src: Src::Junk(fresh_id()), from: len.clone(), to: n },
                ]));
            } else if i == z {
                vals.push(Val::Int(len.clone()));
            } else {
                vals.push(self.havoc(st, t, name, 1));
            }
        }
        Some(Val::Agg(vals))
    }
    pub fn user_kind(&self, ty: Ty<'tcx>) -> UKind {
        let _ = ty;
        UKind::Plain
    }

    // ------------------------------------------------------------------------------------------ terminators

    pub fn terminator(
        &mut self,
        fr: &Frame<'tcx>,
        st: &mut State,
        bb: BasicBlock,
        region: Option<&Region>,
        work: &mut Vec<(BasicBlock, usize, State)>,
        ro: &mut RunOut,
    ) -> R<()> {
        let term = fr.info.body.basic_blocks[bb].terminator();
        let span = term.source_info.span;
        match &term.kind {
            TerminatorKind::Goto { target, .. } => {
                self.route(fr, region, *target, st.clone(), work, ro);
                Ok(())
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.route(fr, region, *real_target, st.clone(), work, ro);
                Ok(())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = self.op_ty(fr, discr);
                let v = self.operand(fr, st, discr)?;
                match &v {
                    Val::Bool(c) => {
                        let known = st.eval(c);
                        for b in [false, true] {
                            if known == Some(!b) {
                                continue;
                            }
                            for mut s in st.clone().assume(c, b) {
                                if known.is_none() && fr.info.local {
                                    s.note(format!("{}: {:?} is {}", self.site(span), c, b));
                                }
                                let t = targets.target_for_value(b as u128);
                                self.route(fr, region, t, s, work, ro);
                            }
                        }
                        Ok(())
                    }
                    Val::Int(_) | Val::Char(_) | Val::Byte(..) => {
                        let l = self.as_int(st, &v)?;
                        let mut rest = vec![st.clone()];
                        for (val, t) in targets.iter() {
                            let k = sext(val, ty);
                            let c = Cond::eq(&l, &Lin::k(k));
                            let mut next = vec![];
                            for s in rest {
                                match s.eval(&c) {
                                    Some(true) => self.route(fr, region, t, s, work, ro),
                                    Some(false) => next.push(s),
                                    None => {
                                        for x in s.clone().assume(&c, true) {
                                            self.route(fr, region, t, x, work, ro);
                                        }
                                        next.extend(s.assume(&c, false));
                                    }
                                }
                            }
                            rest = next;
                        }
                        for s in rest {
                            self.route(fr, region, targets.otherwise(), s, work, ro);
                        }
                        Ok(())
                    }
                    Val::Top => {
                        for (_, t) in targets.iter() {
                            self.route(fr, region, t, st.clone(), work, ro);
                        }
                        self.route(fr, region, targets.otherwise(), st.clone(), work, ro);
                        Ok(())
                    }
                    v => Err(Need::Unsup(format!("switch on {:?}", v))),
                }
            }
            TerminatorKind::Return => {
                let ty = self.mono(&fr.info.inst, fr.info.body.local_decls[RETURN_PLACE].ty);
                let v = self.read_pv(st, &Pv::Loc(Loc::obj(fr.locals[0])), ty)?;
                ro.outs.push((st.clone(), Out::Ret(v)));
                Ok(())
            }
            TerminatorKind::UnwindResume => {
                ro.outs.push((st.clone(), Out::Unwind));
                Ok(())
            }
            TerminatorKind::UnwindTerminate(_) => Ok(()),
            TerminatorKind::Unreachable => Err(Need::Ub("code declared unreachable can be reached".into())),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(fr, st, cond)?;
                let c = self.as_cond(st, &v)?;
                self.stat("S03 assertions discharged");
                let known = st.eval(&c);
                for b in [false, true] {
                    if known == Some(!b) {
                        continue;
                    }
                    for s in st.clone().assume(&c, b) {
                        if b == *expected {
                            self.route(fr, region, *target, s, work, ro);
                        } else {
                            let m = match &**msg {
                                AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                                AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                                AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "division by zero".to_string(),
                                _ => "assertion".to_string(),
                            };
                            ro.outs.push((s, Out::Panic { msg: m, site: self.local_site(&self.site(span)) }));
                        }
                    }
                }
                Ok(())
            }
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = self.place_ty(fr, place);
                if ty.needs_drop(self.tcx, self.env) {
                    let pv = self.eval_place(fr, st, place)?;
                    let outs = self.drop_value(st.clone(), &pv, ty, &self.site(span))?;
                    for (s, o) in outs {
                        match o {
                            Out::Ret(_) => self.route(fr, region, *target, s, work, ro),
                            Out::Unwind => self.unwind_to(fr, unwind, s, region, work, ro),
                            p => ro.outs.push((s, p)),
                        }
                    }
                } else {
                    self.route(fr, region, *target, st.clone(), work, ro);
                }
                Ok(())
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let fty = self.op_ty(fr, func);
                let mut vals = vec![];
                let mut tys = vec![];
                for a in args.iter() {
                    tys.push(self.op_ty(fr, &a.node));
                    vals.push(self.operand(fr, st, &a.node)?);
                }
                let rty = self.place_ty(fr, destination);
                let site = self.site(*fn_span);
                let fval = if let ty::FnDef(..) = fty.kind() { Val::unit() } else { self.operand(fr, st, func)? };
                let outs = self.call(st.clone(), fty, fval, vals, tys, rty, &site)?;
                for (mut s, o) in outs {
                    if s.dead {
                        continue;
                    }
                    match o {
                        Out::Ret(v) => {
                            if let Some(t) = target {
                                match self.write_place(fr, &mut s, destination, v) {
                                    Ok(()) => self.route(fr, region, *t, s, work, ro),
                                    Err(Need::Unsup(m)) => self.unknown(&s, m, &site),
                                    Err(e) => self.unknown(&s, format!("{:?}", e), &site),
                                }
                            }
                        }
                        Out::Unwind => self.unwind_to(fr, unwind, s, region, work, ro),
                        p => ro.outs.push((s, p)),
                    }
                }
                Ok(())
            }
            k => Err(Need::Unsup(format!("terminator {:?}", k))),
        }
    }
    pub fn unwind_to(
        &mut self,
        fr: &Frame<'tcx>,
        u: &UnwindAction,
        s: State,
        region: Option<&Region>,
        work: &mut Vec<(BasicBlock, usize, State)>,
        ro: &mut RunOut,
    ) {
        match u {
            UnwindAction::Cleanup(b) => self.route(fr, region, *b, s, work, ro),
            UnwindAction::Continue => ro.outs.push((s, Out::Unwind)),
            _ => {}
        }
    }

    pub fn drop_value(&mut self, st: State, pv: &Pv, ty: Ty<'tcx>, site: &str) -> R<Vec<(State, Out)>> {
        match ty.kind() {
            ty::Adt(d, args) if d.did().is_local() => {
                let mut outs = vec![(st, Out::Ret(Val::unit()))];
                if let Some(dt) = d.destructor(self.tcx) {
                    let inst = Instance::new_raw(dt.did, args);
                    let mut next = vec![];
                    for (s, _) in outs {
                        if let Pv::Loc(l) = pv {
                            next.extend(self.exec_fn(s, inst, vec![Val::Ref(l.clone())], site));
                        }
                    }
                    outs = next;
                }
                if d.is_struct() {
                    for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                        let t = self.norm_ty(f.ty(self.tcx, args).skip_norm_wip());
                        if !t.needs_drop(self.tcx, self.env) {
                            continue;
                        }
                        let mut next = vec![];
                        for (s, o) in outs {
                            match (&o, pv) {
                                (Out::Ret(_), Pv::Loc(l)) => {
                                    next.extend(self.drop_value(s, &Pv::Loc(l.push(Proj::Field(i as u32))), t, site)?);
                                }
                                _ => next.push((s, o)),
                            }
                        }
                        outs = next;
                    }
                }
                Ok(outs)
            }
            ty::Param(_) | ty::Alias(..) => {
                // user destructor: may panic
                let mut s2 = st.clone();
                s2.ghost.insert("drop_unwind".into(), Val::b(true));
                s2.note(format!("{}: a caller-supplied destructor panics", site));
                Ok(vec![(st, Out::Ret(Val::unit())), (s2, Out::Unwind)])
            }
            _ => {
                if ty.needs_drop(self.tcx, self.env)
                    && ty.walk().any(|x| {
                        matches!(x.as_type().map(|t| *t.kind()), Some(ty::Adt(d, _)) if d.did().is_local() && d.destructor(self.tcx).is_some())
                    })
                {
                    return Err(Need::Unsup(format!("drop of {}", ty)));
                }
                Ok(vec![(st, Out::Ret(Val::unit()))])
            }
        }
    }

    pub fn call(
        &mut self,
        mut st: State,
        fty: Ty<'tcx>,
        fval: Val,
        args: Vec<Val>,
        tys: Vec<Ty<'tcx>>,
        rty: Ty<'tcx>,
        site: &str,
    ) -> R<Vec<(State, Out)>> {
        let ty::FnDef(def, gargs) = *fty.kind() else {
            let _ = fval;
            return Err(Need::Unsup(format!("call through {}", fty)));
        };
        let gargs = gargs.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, def));
        self.call_def(&mut st, def, gargs, args, tys, rty, site)
    }

    pub fn call_def(
        &mut self,
        st: &mut State,
        def: DefId,
        gargs: GenericArgsRef<'tcx>,
        args: Vec<Val>,
        tys: Vec<Ty<'tcx>>,
        rty: Ty<'tcx>,
        site: &str,
    ) -> R<Vec<(State, Out)>> {
        let key0 = self.key(def);
        // models that apply to the trait method as called
        if let Some(r) = self.model(st, &key0, def, gargs, &args, &tys, rty, site)? {
            return Ok(r);
        }
        let inst = Instance::try_resolve(self.tcx, self.env, def, gargs).ok().flatten();
        let Some(inst) = inst else {
            return self.user_call(st, &key0, def, gargs, args, tys, rty, site);
        };
        let rdef = inst.def.def_id();
        let key = self.key(rdef);
        if key != key0 {
            if let Some(r) = self.model(st, &key, rdef, inst.args, &args, &tys, rty, site)? {
                return Ok(r);
            }
        }
        match inst.def {
            InstanceKind::Intrinsic(_) => {
                if self.tcx.is_mir_available(rdef) {
                    let i2 = Instance::new_raw(rdef, inst.args);
                    return Ok(self.exec_fn(st.clone(), i2, args, site));
                }
                Err(Need::Unsup(format!("intrinsic {}", key)))
            }
            InstanceKind::LlvmIntrinsic(_) => Err(Need::Unsup(format!("intrinsic {}", key))),
            InstanceKind::Virtual(..) => self.opaque_call(st, &key0, args, tys, rty, site),
            InstanceKind::Item(d) => {
                // a provided trait method of a caller-supplied type
                if self.tcx.is_closure_like(d) {
                    // called through Fn*::call*: (closure, (args,))
                    let mut it = args.into_iter();
                    let this = it.next().ok_or_else(|| Need::Unsup("closure".into()))?;
                    let tup = it.next();
                    let mut v = vec![this];
                    match tup {
                        Some(Val::Agg(f)) => v.extend(f),
                        Some(x) => v.push(x),
                        None => {}
                    }
                    return Ok(self.exec_fn(st.clone(), inst, v, site));
                }
                if let DefKind::Ctor(..) = self.tcx.def_kind(d) {
                    return Ok(vec![(st.clone(), Out::Ret(self.ctor(d, args)))]);
                }
                if self.is_pure_observer(d) {
                    return self.opaque_call(st, &key, args, tys, rty, site);
                }
                if self.use_sums && !self.log_panics {
                    if let Some(e) = self.sums.get(&d).cloned() {
                        match self.summary(st, &e, &args, &tys, rty, site) {
                            Ok(Some(r)) => return Ok(r),
                            Ok(None) => self.note("no summary used", site),
                            Err(Need::Unsup(m)) => self.note(&m, site),
                            Err(e) => return Err(e),
                        }
                    }
                }
                if self.inlinable(d) && self.body_info(inst, None).is_some() {
                    return Ok(self.exec_fn(st.clone(), inst, args, site));
                }
                self.opaque_call(st, &key, args, tys, rty, site)
            }
            InstanceKind::Shim(sh) => match sh {
                ShimKind::ClosureOnce { closure, .. } => {
                    // by-value call of a by-reference closure
                    let mut it = args.into_iter();
                    let this = it.next().unwrap_or(Val::unit());
                    let o = st.new_obj(this);
                    let mut v = vec![Val::Ref(Loc::obj(o))];
                    match it.next() {
                        Some(Val::Agg(f)) => v.extend(f),
                        Some(x) => v.push(x),
                        None => {}
                    }
                    let _ = closure;
                    // substitutions of the closure are those of the self type
                    let cty = tys.get(0).copied();
                    if let Some(ty::Closure(d, a)) = cty.map(|t| *t.kind()) {
                        return Ok(self.exec_fn(st.clone(), Instance::new_raw(d, a), v, site));
                    }
                    Err(Need::Unsup("closure shim".into()))
                }
                ShimKind::FnPtr(_, t) => {
                    let mut it = args.into_iter();
                    let _this = it.next();
                    let v = match it.next() {
                        Some(Val::Agg(f)) => f,
                        Some(x) => vec![x],
                        None => vec![],
                    };
                    let mut tt = vec![];
                    if let Some(ty::Tuple(ts)) = tys.get(1).map(|t| *t.kind()) {
                        tt.extend(ts.iter());
                    }
                    if let ty::FnDef(d, a) = *t.kind() {
                        let a = a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, d));
                        return self.call_def(st, d, a, v, tt, rty, site);
                    }
                    Err(Need::Unsup("call through a function pointer".into()))
                }
                ShimKind::Clone(..) => match &args[0] {
                    Val::Ref(l) => {
                        let l = l.clone();
                        let v = self.read_pv(st, &Pv::Loc(l), rty)?;
                        Ok(vec![(st.clone(), Out::Ret(v))])
                    }
                    v => Ok(vec![(st.clone(), Out::Ret(v.clone()))]),
                },
                ShimKind::DropGlue(_, Some(t)) => {
                    let pv = match &args[0] {
                        Val::Ref(l) => Pv::Loc(l.clone()),
                        _ => return Ok(vec![(st.clone(), Out::Ret(Val::unit()))]),
                    };
                    self.drop_value(st.clone(), &pv, t, site)
                }
                ShimKind::DropGlue(_, None) => Ok(vec![(st.clone(), Out::Ret(Val::unit()))]),
                s => Err(Need::Unsup(format!("shim {:?}", s))),
            },
        }
    }
    pub fn ctor(&self, d: DefId, args: Vec<Val>) -> Val {
        let p = self.tcx.parent(d);
        if self.tcx.def_kind(p) == DefKind::Variant {
            let e = self.tcx.parent(p);
            let adt = self.tcx.adt_def(e);
            let vi = adt.variant_index_with_ctor_id(d);
            Val::Enum(vi.as_u32(), args)
        } else {
            Val::Agg(args)
        }
    }
    pub fn inlinable(&self, d: DefId) -> bool {
        let _ = d;
        true
    }
    pub fn crate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    /// functions of crates that only observe their arguments
    pub fn is_pure_observer(&self, d: DefId) -> bool {
        self.crate_of(d) == "log" && !crate::models::log_compare(&self.key(d))
    }

    /// a call about which nothing is known except its types
    pub fn opaque_call(&mut self, st: &mut State, key: &str, args: Vec<Val>, tys: Vec<Ty<'tcx>>, rty: Ty<'tcx>, site: &str) -> R<Vec<(State, Out)>> {
        self.unmodelled.insert(key.to_string());
        let krate = key.split(':').next().unwrap_or("").to_string();
        if krate == "core" && !key.starts_with("core:Argument") {
            st.taint(&format!("{} at {}", key, self.local_site(site)));
        }
        for (a, t) in args.iter().zip(&tys) {
            if let ty::Ref(_, inner, m) = t.kind() {
                if m.is_mut() {
                    if let Val::Ref(l) = a {
                        let v = self.havoc(st, *inner, "?", 0);
                        st.store(l, v);
                    }
                }
            }
        }
        if rty.is_never() {
            // planted by the no-panic crate: a program in which this can be reached does not link
            if key.ends_with(":::trigger") || key.ends_with("::trigger") && key.contains("no_panic") {
                return Ok(vec![]);
            }
            return Ok(vec![(st.clone(), Out::Panic { msg: format!("call of {}", key), site: self.local_site(site) })]);
        }
        let v = self.havoc(st, rty, key, 0);
        Ok(vec![(st.clone(), Out::Ret(v))])
    }

    /// name used by the models: crate:Owner::name
    pub fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let krate = match self.crate_of(d).as_str() {
            "core" | "alloc" | "std" => "core".to_string(),
            c => c.to_string(),
        };
        let Some(name) = tcx.opt_item_name(d) else {
            return format!("{}:{{{:?}}}", krate, tcx.def_kind(d));
        };
        let parent = tcx.opt_parent(d);
        let owner = match parent {
            Some(p) => match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = self.ty_short(tcx.type_of(p).instantiate_identity().skip_norm_wip());
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        format!("<{} as {}>", st, tcx.item_name(tr.def_id))
                    } else {
                        st
                    }
                }
                _ => tcx.opt_item_name(p).map(|n| n.to_string()).unwrap_or_default(),
            },
            None => String::new(),
        };
        format!("{}:{}::{}", krate, owner, name)
    }
    pub fn ty_short(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_short(*t)),
            ty::RawPtr(t, m) => {
                let _ = t;
                if m.is_mut() {
                    "*mut".into()
                } else {
                    "*const".into()
                }
            }
            ty::Slice(t) => format!("[{}]", self.ty_short(*t)),
            ty::Array(t, _) => format!("[{};N]", self.ty_short(*t)),
            ty::Param(p) => p.name.to_string(),
            ty::Tuple(t) if t.is_empty() => "()".into(),
            ty::Tuple(_) => "(..)".into(),
            ty::Dynamic(..) => "dyn".into(),
            ty::Alias(..) => "alias".into(),
            _ => format!("{}", t),
        }
    }
}

pub fn has_params(a: GenericArgsRef<'_>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    a.has_param()
}
pub fn has_params_ty(a: Ty<'_>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    a.has_param()
}

pub fn reach_obj(st: &State, o: ObjId, keep: &mut BTreeSet<ObjId>) {
    if !keep.insert(o) {
        return;
    }
    if let Some(v) = st.objs.get(&o) {
        reach_val(st, v, keep);
    }
}
pub fn reach_val(st: &State, v: &Val, keep: &mut BTreeSet<ObjId>) {
    match v {
        Val::Ref(l) => reach_obj(st, l.obj, keep),
        Val::Slice { base: Base::Place(l), .. }
        | Val::BPtr { base: Base::Place(l), .. }
        | Val::Chars { base: Base::Place(l), .. }
        | Val::BIter { base: Base::Place(l), .. } => reach_obj(st, l.obj, keep),
        Val::Agg(f) | Val::Enum(_, f) => {
            for x in f {
                reach_val(st, x, keep);
            }
        }
        _ => {}
    }
}

#[derive(Default)]
struct Live {
    strs: BTreeSet<StrId>,
    chars: BTreeSet<CharId>,
    users: BTreeSet<UserId>,
}
impl Live {
    fn text(&mut self, t: &[Piece]) {
        for p in t {
            if let Src::Str(s) = p.src {
                self.strs.insert(s);
            }
        }
    }
    fn base(&mut self, b: &Base) {
        if let Base::Ext(s) = b {
            self.strs.insert(*s);
        }
    }
    fn cond(&mut self, c: &Cond) {
        match c {
            Cond::Bnd(s, _) => {
                self.strs.insert(*s);
            }
            Cond::Pred(_, c) => {
                self.chars.insert(*c);
            }
            Cond::TextEq(a, b) | Cond::OrdIs(a, b, _) => {
                self.text(a);
                self.text(b);
            }
            Cond::Not(c) => self.cond(c),
            Cond::And(a, b) | Cond::Or(a, b) => {
                self.cond(a);
                self.cond(b);
            }
            Cond::T | Cond::F | Cond::Ge(_) | Cond::Eq(_) | Cond::Opaque(_) => {}
        }
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Byte(s, _) | Val::ByteOp(s, _, _) => {
                if let Src::Str(s) = s {
                    self.strs.insert(*s);
                }
            }
            Val::Bool(c) => self.cond(c),
            Val::Char(c) => {
                self.chars.insert(*c);
            }
            Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| self.val(x)),
            Val::Slice { base, .. } | Val::BPtr { base, .. } | Val::Chars { base, .. } | Val::BIter { base, .. } => self.base(base),
            Val::Bytes(t) => self.text(t),
            Val::User(u) | Val::Decode(u) => {
                self.users.insert(*u);
            }
            Val::SymOrd(a, b, _) => {
                self.text(a);
                self.text(b);
            }
            Val::Uninit | Val::Top | Val::Int(_) | Val::Ref(_) | Val::Opaque(_) => {}
        }
    }
}

pub fn dump(st: &State, roots: &[ObjId]) {
    for (o, v) in &st.objs {
        let o = &o;
        if !matches!(v, Val::Uninit) {
            eprintln!("      o{}{} = {:?}", o, if roots.contains(o) { "" } else { "'" }, v);
        }
    }
    for (k, v) in &st.ghost {
        eprintln!("      ghost {} = {:?}", k, v);
    }
    for (k, u) in &st.users {
        eprintln!("      user {} {} taken {:?} kept {:?} ex {} err {}", k, u.name, u.taken, u.kept, u.exhausted, u.err);
    }
    for (k, s) in &st.strs {
        eprintln!("      str {} {:?} len {:?}", k, s.kind, s.len);
    }
    eprintln!("      cons {:?} eq {:?}", st.cons.ge, st.cons.eq);
    eprintln!("      bnd {:?} nb {:?} rp {:?} pred {:?}", st.facts.bnd, st.facts.nb, st.facts.rp, st.facts.pred);
}

pub fn _unused(_: FieldIdx) {}

fn resident_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}
