//! Calls from several threads at once (P26): a controlled scheduler over the real code.
//!
//! Exactly one of the controlled threads runs at any time. It can be preempted at every allocation and
//! deallocation it does (the allocator of this program is the hook), or at every machine instruction outside
//! of the allocator (the trap flag is set, and every SIGTRAP is a scheduling point). A schedule is a list of
//! (thread, points to run); after the list every thread runs to its end. What each call returns is compared
//! with what it returns alone.

use crate::frame::*;
use crate::model::*;
use dynparser::ast::{self, flat};
use dynparser::parser::expression::{Expression, SetOfRules};
use dynparser::{parse, parse_debug, parser, peg, rules_from_peg};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::Instant;

// ------------------------------------------------------------------ hook

pub struct Hooked;
unsafe impl GlobalAlloc for Hooked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let g = enter();
        let p = System.alloc(l);
        count(l.size() as i64);
        leave(g);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let g = enter();
        System.dealloc(p, l);
        count(-(l.size() as i64));
        leave(g);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let g = enter();
        let p = System.realloc(p, l, n);
        count(n as i64 - l.size() as i64);
        BYTES.with(|b| b.set(b.get() + n.min(l.size()) as u64)); // may be copied
        leave(g);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let g = enter();
        let p = System.alloc_zeroed(l);
        count(l.size() as i64);
        leave(g);
        p
    }
}

thread_local! {
    /// operations of the allocator done by this thread
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// bytes in use, taken less given back by this thread
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// bytes ever asked for by this thread
    static BYTES: Cell<u64> = const { Cell::new(0) };
    /// the lowest address of the stack at an operation of the allocator
    static LOWEST: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[inline]
fn count(d: i64) {
    COUNT.with(|c| c.set(c.get() + 1));
    let here = &d as *const i64 as usize;
    LOWEST.with(|l| l.set(l.get().min(here)));
    LIVE.with(|c| c.set(c.get() + d));
    if d > 0 {
        BYTES.with(|b| b.set(b.get() + d as u64));
    }
}
/// operations of the allocator, and bytes in use, of this thread
pub fn meter() -> (u64, i64) {
    (COUNT.with(|c| c.get()), LIVE.with(|c| c.get()))
}

/// bytes ever asked for by this thread
pub fn meter_bytes() -> u64 {
    BYTES.with(|c| c.get())
}

/// bytes of stack in use by `f` at its deepest operation of the allocator
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (usize, R) {
    let x = 0u8;
    let here = &x as *const u8 as usize;
    LOWEST.with(|l| l.set(usize::MAX));
    let r = f();
    (here.saturating_sub(LOWEST.with(|l| l.get())), r)
}

const NONE: usize = usize::MAX;
const MAIN: usize = usize::MAX - 1;
pub const MAX: usize = 64;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    /// inside of the allocator or of the scheduler: no points there
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

#[inline]
fn enter() -> bool {
    if ME.with(|m| m.get()) == NONE || INSIDE.with(|i| i.replace(true)) {
        return false;
    }
    true
}
#[inline]
fn leave(g: bool) {
    if g {
        alloc_point();
        INSIDE.with(|i| i.set(false));
    }
}

// ------------------------------------------------------------- scheduler

#[derive(Clone, Copy, PartialEq, Debug)]
enum Unit {
    /// a point is an operation of the allocator
    Alloc,
    /// a point is an instruction; only thread 0, after its alloc point number .0 and (unless .1) until the next
    Instr(u64, bool),
}

struct Sched {
    turn: AtomicUsize,
    unit: Unit,
    segs: Vec<(usize, u64)>,
    cur: usize,
    left: u64,
    /// thread 1 runs a whole operation at each point of thread 0
    many: bool,
    n: usize,
    done: [bool; MAX],
    /// points passed by each thread
    points: [u64; MAX],
    allocs: [u64; MAX],
    switches: u64,
    stepping: bool,
    job: [usize; MAX],
    out: Vec<String>,
    /// results are kept, not compared
    keep: bool,
    wrong: Option<String>,
    runs: u64,
}
struct Shared(UnsafeCell<Sched>);
unsafe impl Sync for Shared {}
static S: Shared = Shared(UnsafeCell::new(Sched {
    turn: AtomicUsize::new(MAIN),
    unit: Unit::Alloc,
    segs: vec![],
    cur: 0,
    left: 0,
    many: false,
    n: 0,
    done: [true; MAX],
    points: [0; MAX],
    allocs: [0; MAX],
    switches: 0,
    stepping: false,
    job: [0; MAX],
    out: vec![],
    keep: false,
    wrong: None,
    runs: 0,
}));
/// only the thread with the turn touches it (but for `turn`)
#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut *S.0.get() }
}
fn turn() -> usize {
    unsafe { (*S.0.get()).turn.load(SeqCst) }
}
fn give(t: usize) {
    unsafe { (*S.0.get()).turn.store(t, SeqCst) }
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// times that a call was blocked by another one
static ROBBED: AtomicU64 = AtomicU64::new(0);
static QUIT: AtomicBool = AtomicBool::new(false);

static TIDS: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
/// the thread doesn't run nor wants to: it waits inside of a lock
fn asleep(t: usize) -> bool {
    let tid = TIDS[t].load(SeqCst);
    (0..5).all(|_| {
        std::thread::sleep(std::time::Duration::from_millis(2));
        let st = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
        st.rsplit(") ").next().map_or(false, |x| x.starts_with('S'))
    })
}

/// until it is my turn. If whoever has the turn is blocked by the code itself, waiting for somebody else
/// (a lock), the turn is taken from it
fn wait(me: usize, take: bool) {
    let mut i = 0u32;
    let mut seen = (0, None::<Instant>);
    loop {
        if turn() == me {
            return;
        }
        i += 1;
        if i < 300 {
            std::hint::spin_loop();
            continue;
        }
        std::thread::yield_now();
        if take && i % 512 == 0 {
            let p = PROGRESS.load(SeqCst);
            match seen {
                (q, Some(t)) if q == p => {
                    let h = turn();
                    let ms = t.elapsed().as_millis();
                    if ms > 300 && h < MAX && h != me && (ms > 20_000 || asleep(h)) && PROGRESS.load(SeqCst) == p {
                        let sc = unsafe { &(*S.0.get()).turn };
                        if sc.compare_exchange(h, me, SeqCst, SeqCst).is_ok() {
                            let sc = s();
                            sc.left = u64::MAX;
                            sc.segs.clear();
                            sc.many = false;
                            ROBBED.fetch_add(1, SeqCst);
                            return;
                        }
                    }
                }
                _ => seen = (p, Some(Instant::now())),
            }
        }
    }
}

/// who runs next; called with the turn
fn advance() {
    let sc = s();
    sc.switches += 1;
    PROGRESS.fetch_add(1, SeqCst);
    loop {
        sc.cur += 1;
        if sc.cur >= sc.segs.len() {
            sc.left = u64::MAX;
            match (0..sc.n).find(|&t| !sc.done[t]) {
                Some(t) => give(t),
                None => give(MAIN),
            }
            return;
        }
        let (t, p) = sc.segs[sc.cur];
        if !sc.done[t] {
            sc.left = p;
            give(t);
            return;
        }
    }
}

fn point(me: usize) {
    if turn() != me {
        // the turn was taken while blocked
        wait(me, true);
    }
    PROGRESS.fetch_add(1, SeqCst);
    let sc = s();
    sc.points[me] += 1;
    if sc.many {
        if me == 0 {
            sc.done[1] = false;
            PROGRESS.fetch_add(1, SeqCst);
            give(1);
            wait(0, true);
        }
        return;
    }
    sc.left = sc.left.saturating_sub(1);
    if sc.left == 0 {
        advance();
        wait(me, true);
    }
}

#[inline(never)]
fn alloc_point() {
    let me = ME.with(|m| m.get());
    match s().unit {
        Unit::Alloc => point(me),
        Unit::Instr(from, on) => {
            if me == 0 {
                s().allocs[0] += 1;
                let a = s().allocs[0];
                if a == from {
                    s().stepping = true;
                    set_trap(true);
                } else if a == from + 1 && !on && s().stepping {
                    s().stepping = false;
                    set_trap(false);
                }
            }
        }
    }
}

#[inline(always)]
fn set_trap(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
    let me = ME.with(|m| m.get());
    if me == NONE || INSIDE.with(|i| i.get()) || !s().stepping {
        return;
    }
    INSIDE.with(|i| i.set(true));
    point(me);
    let sc = s();
    if !sc.many && sc.cur > 0 {
        // preempted already: the rest of the call runs freely
        sc.stepping = false;
        unsafe { (*(context as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
    }
    INSIDE.with(|i| i.set(false));
}

fn install() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        a.sa_flags = libc::SA_RESTART | libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
}

// ------------------------------------------------------------ operations

/// whether the type can be shared is asked apart
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

pub enum Res {
    Parsed(Result<ast::Node, parser::Error>),
    Rules(Result<SetOfRules, peg::Error>),
    Code(String),
    Tree(ast::Node),
    Flat(Vec<flat::Node>),
}
fn text(r: &Res) -> String {
    match r {
        Res::Parsed(r) => format!("{:?}", r),
        Res::Rules(Ok(r)) => crate::dump::dump(r),
        Res::Rules(Err(e)) => format!("{:?}", e),
        Res::Code(s) => {
            let mut v: Vec<&str> = s.lines().map(|l| l.trim().trim_start_matches(',').trim()).collect();
            v.sort();
            v.join("\n")
        }
        Res::Tree(n) => format!("{:?}", n),
        Res::Flat(v) => format!("{:?}", v),
    }
}

struct Op {
    name: String,
    /// few points: every schedule of it can be run
    small: bool,
    run: Box<dyn Fn() -> Res>,
}

fn ops() -> &'static Vec<Op> {
    static C: OnceLock<Share<Vec<Op>>> = OnceLock::new();
    &C.get_or_init(|| Share(make_ops())).0
}

fn make_ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let sets: &'static Vec<SetOfRules> = Box::leak(Box::new(
        vec![
            rules(vec![("main", or(vec![and(vec![lit("a"), opt(rf("main"))]), rf("r")])), ("r", plus(class("bé\n", &[('0', '9')])))]),
            rules(vec![("main", or(vec![and(vec![lit("("), rf("main"), or(vec![lit(")"), err("unbalanced")])]), lit("hello"), lit("")]))]),
            // same names, other definitions
            rules(vec![("main", and(vec![rf("r"), rf("nope")])), ("r", star(lit("a")))]),
            rules(vec![("main", and(vec![not(lit("b")), star(rf("r")), E::Eof])), ("r", or(vec![lit("ab"), E::Dot]))]),
            crate::spaces::app_rules(&crate::spaces::APPS[0]).unwrap(),
        ]
        .iter()
        .map(to_real)
        .collect(),
    ));
    let tree: &'static ast::Node = Box::leak(Box::new(
        parse("1+2", &sets[4]).expect("calculator"),
    ));
    let mut add = |name: String, small: bool, run: Box<dyn Fn() -> Res>| v.push(Op { name, small, run });
    for (s, t) in [(0usize, "ab"), (0, "b\né"), (0, "ax"), (0, "aa"), (1, "()"), (1, "(("), (2, "aa"), (2, "ab"), (3, "aba"), (3, "b")] {
        add(format!("parse({:?}, rules {})", t, s), true, Box::new(move || Res::Parsed(parse(t, &sets[s]))));
    }
    for (s, t) in [(0usize, "ax"), (1, "(("), (2, "aa"), (3, "ab")] {
        add(format!("parse_debug({:?}, rules {})", t, s), true, Box::new(move || Res::Parsed(parse_debug(t, &sets[s]))));
    }
    for s in [0usize, 1] {
        add(format!("rust_from_rules(rules {})", s), true, Box::new(move || Res::Code(peg::gcode::rust_from_rules(&sets[s]))));
    }
    add("compact(tree)".into(), true, Box::new(move || Res::Tree(tree.compact())));
    add("prune(tree)".into(), true, Box::new(move || Res::Tree(tree.prune(&["_", "sum"]))));
    add("pass_through_except(tree)".into(), true, Box::new(move || Res::Tree(tree.pass_through_except(&["number"]))));
    add("flatten(tree)".into(), true, Box::new(move || Res::Flat(tree.flatten())));
    add(
        "rules! and parse".into(),
        true,
        Box::new(move || {
            let r = rules!("main" => and!(lit!("a"), ref_rule!("x"))).merge(rules!("x" => ematch!(chlist "b", from 'c', to 'd')));
            let r = r.add("y", rep!(not!(dot!()), 1, 2));
            Res::Parsed(parse("ac", &r))
        }),
    );
    for g in ["main='a'\n", "main = r+ / [b-d]\nr = !\"\\n\" .\n", "main='a\n", "m {\n r = error('x')\n}\n"] {
        add(format!("rules_from_peg({:?})", g), false, Box::new(move || Res::Rules(rules_from_peg(g))));
    }
    add("parse(\"1+2*(3)\", calculator)".into(), false, Box::new(move || Res::Parsed(parse("1+2*(3)", &sets[4]))));
    add("parse_debug(\"1+2*(3\", calculator)".into(), false, Box::new(move || Res::Parsed(parse_debug("1+2*(3", &sets[4]))));
    v
}

/// deep and long calls
fn heavy() -> &'static Vec<Op> {
    static C: OnceLock<Share<Vec<Op>>> = OnceLock::new();
    &C.get_or_init(|| {
        let mut v = vec![];
        let paren: &'static SetOfRules = Box::leak(Box::new(to_real(&rules(vec![("main", or(vec![and(vec![lit("("), rf("main"), or(vec![lit(")"), err("unbalanced")])]), lit("hello")]))]))));
        let lines: &'static SetOfRules = Box::leak(Box::new(to_real(&rules(vec![("main", star(and(vec![star(rf("c")), lit("\n")]))), ("c", class("", &[('a', 'z')]))]))));
        for n in [6000usize, 9000] {
            let t: &'static str = Box::leak(format!("{}hello{}", "(".repeat(n), ")".repeat(n)).into_boxed_str());
            v.push(Op { name: format!("parse of {} nested parentheses", n), small: false, run: Box::new(move || Res::Parsed(parse(t, paren))) });
        }
        let t: &'static str = Box::leak("abcde\n".repeat(4000).into_boxed_str());
        v.push(Op { name: "parse of 4000 lines".into(), small: false, run: Box::new(move || Res::Parsed(parse(t, lines))) });
        let g: &'static str = Box::leak((0..40).map(|i| format!("r{} = 'a{}' / (r{} [a-z]+)? // c\n", i, i, i + 1)).collect::<String>().into_boxed_str());
        v.push(Op { name: "rules_from_peg of 40 rules".into(), small: false, run: Box::new(move || Res::Rules(rules_from_peg(g))) });
        Share(v)
    })
    .0
}

fn op(j: usize) -> &'static Op {
    if j < 1000 {
        &ops()[j]
    } else {
        &heavy()[j - 1000]
    }
}

/// the result alone, before anything else
fn want(j: usize) -> &'static String {
    static C: [OnceLock<String>; 64] = [const { OnceLock::new() }; 64];
    C[if j < 1000 { j } else { 50 + j - 1000 }].get_or_init(|| text(&(op(j).run)()))
}

fn exec(me: usize, j: usize) -> Option<Res> {
    let o = op(j);
    if let (0, Unit::Instr(0, _)) = (me, s().unit) {
        ME.with(|m| m.set(me));
        s().stepping = true;
        set_trap(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.run)()));
        set_trap(false);
        s().stepping = false;
        ME.with(|m| m.set(NONE));
        return r.ok();
    }
    ME.with(|m| m.set(me));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.run)()));
    set_trap(false);
    ME.with(|m| m.set(NONE));
    r.ok()
}

fn thread(me: usize) {
    TIDS[me].store(unsafe { libc::syscall(libc::SYS_gettid) } as usize, SeqCst);
    loop {
        wait(me, false);
        if QUIT.load(SeqCst) {
            give(if me + 1 < s().n { me + 1 } else { MAIN });
            return;
        }
        if s().done[me] {
            advance();
            continue;
        }
        let j = s().job[me];
        let r = exec(me, j);
        // it may have lost the turn while blocked
        wait(me, true);
        let got = r.map_or("it panicked".to_string(), |r| text(&r));
        if me == 0 && s().stepping {
            s().stepping = false;
        }
        s().runs += 1;
        if s().keep {
            s().out[me] = got;
        } else if got != *want(j) && s().wrong.is_none() {
            s().wrong = Some(format!("{} (thread {}) gives\n{}\nalone it gives\n{}", op(j).name, me, clip_(&got), clip_(want(j))));
        }
        s().done[me] = true;
        if s().many && me == 1 {
            give(0);
        } else if s().many && me == 0 {
            give(MAIN);
        } else {
            advance();
        }
    }
}
fn clip_(x: &str) -> String {
    x.chars().take(1500).collect()
}

/// runs a schedule; the points passed by each thread, or what went wrong
fn schedule(jobs: &[usize], unit: Unit, segs: &[(usize, u64)], many: bool) -> Result<[u64; MAX], String> {
    let sc = s();
    sc.unit = unit;
    sc.segs = segs.to_vec();
    sc.cur = 0;
    sc.many = many;
    sc.done = [true; MAX];
    sc.points = [0; MAX];
    sc.allocs = [0; MAX];
    sc.switches = 0;
    sc.stepping = false;
    sc.wrong = None;
    for (t, j) in jobs.iter().enumerate() {
        sc.done[t] = false;
        sc.job[t] = *j;
    }
    let (t, p) = segs.first().copied().unwrap_or((0, u64::MAX));
    sc.left = p;
    give(t);
    wait(MAIN, false);
    match s().wrong.take() {
        Some(w) => Err(w),
        None => Ok(s().points),
    }
}

// ----------------------------------------------------- child: `mc race …`

struct Tally {
    schedules: u64,
    switches: u64,
    points: u64,
    /// schedules that ended before their first switch are the end of an enumeration
    cut: u64,
}

/// all the schedules of a job; prints "ok schedules switches points" or "fail …"
pub fn child(args: &[String]) -> i32 {
    let args = args.to_vec();
    std::thread::Builder::new().stack_size(1 << 29).spawn(move || child_(&args)).unwrap().join().unwrap_or(101)
}
fn child_(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    install();
    let num = |i: usize| args.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    let kind = args.first().map(|x| x.as_str()).unwrap_or("");
    // the results alone come from a process that does nothing else
    if kind == "alone" {
        print!("{}", text(&(op(num(1)).run)()));
        return 0;
    }
    let n = match kind {
        "crowd" => num(2),
        "three" => 3,
        _ => 2,
    };
    s().n = n;
    let stack = if n > 8 { 1 << 26 } else { 1 << 28 };
    let hs: Vec<_> = (0..n).map(|t| std::thread::Builder::new().stack_size(stack).spawn(move || thread(t)).unwrap()).collect();
    let mut y = Tally { schedules: 0, switches: 0, points: 0, cut: 0 };
    if kind == "first" {
        // the first calls of this process: the parent compares
        s().keep = true;
        s().out = vec![String::new(); n];
        let r = schedule(&[num(1), num(2)], Unit::Alloc, &[(0, num(3) as u64), (1, u64::MAX)], false);
        print!("{} {}\u{1f}{}", r.map_or(0, |p| p[0]), s().out[0], s().out[1]);
        return 0;
    }
    let r = match kind {
        _ => {
            // warm: the results alone, in this process, must be the ones of a process of its own
            let js: Vec<usize> = if kind == "crowd" { vec![num(1)] } else { vec![num(1), num(2), num(3)] };
            js.iter().try_for_each(|&j| {
                let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["race", "alone", &j.to_string()]).output().unwrap();
                let alone = String::from_utf8_lossy(&o.stdout).to_string();
                if *want(j) == alone {
                    Ok(())
                } else {
                    Err(format!("{}: without any concurrency\n{}\nalone in a process\n{}", op(j).name, clip_(want(j)), clip_(&alone)))
                }
            })
        }
    };
    let r = r.and_then(|_| explore(kind, &num, &mut y));
    QUIT.store(true, SeqCst);
    give(0);
    for h in hs {
        let _ = h.join();
    }
    match r {
        Err(w) if w == "BLOCKED" => println!("ok {} {} {} blocked", y.schedules, y.switches, y.points),
        Ok(()) => println!("ok {} {} {}", y.schedules, y.switches, y.points),
        Err(w) => println!("fail {}", w),
    }
    0
}

fn explore(kind: &str, num: &dyn Fn(usize) -> usize, y: &mut Tally) -> Result<(), String> {
    let go = |jobs: &[usize], unit: Unit, segs: &[(usize, u64)], many: bool, y: &mut Tally| -> Result<[u64; MAX], String> {
        s().runs = 0;
        let r = schedule(jobs, unit, segs, many).map_err(|w| {
            format!("{}\nschedule: {:?}, {}", w, unit, if many { "the other call at every point".to_string() } else { format!("{:?}, then the rest", segs) })
        })?;
        if ROBBED.load(SeqCst) > 10 {
            return Err("BLOCKED".into());
        }
        y.schedules += 1;
        y.switches += s().switches + if many { s().runs } else { 0 };
        y.points += r.iter().sum::<u64>();
        Ok(r)
    };
    let (a, b) = (num(1), num(2));
    match kind {
        // one preemption, at each alloc point of a
        "one" => {
            for k in 1.. {
                let r = go(&[a, b], Unit::Alloc, &[(0, k), (1, u64::MAX)], false, y)?;
                if r[0] < k {
                    y.cut += 1;
                    break;
                }
            }
        }
        // two: a stops at each point, then b at each point, a ends, b ends
        "two" => {
            let mut k = 1;
            loop {
                let mut j = 1;
                let mut last = false;
                loop {
                    let r = go(&[a, b], Unit::Alloc, &[(0, k), (1, j), (0, u64::MAX)], false, y)?;
                    last |= r[0] < k;
                    if r[1] < j || last {
                        break;
                    }
                    j += 1;
                }
                if last {
                    break;
                }
                k += 1;
            }
        }
        // three threads, each one stopped once at each of its points, then resumed in order
        "three" => {
            let c = num(3);
            for k in 1.. {
                let mut end = false;
                for j in 1.. {
                    let r = go(&[a, b, c], Unit::Alloc, &[(0, k), (1, j), (2, u64::MAX)], false, y)?;
                    end |= r[0] < k;
                    if r[1] < j || end {
                        break;
                    }
                }
                if end {
                    break;
                }
            }
        }
        // b whole at every alloc point of a
        "many" => {
            go(&[a, b], Unit::Alloc, &[], true, y)?;
        }
        // b whole at every instruction of a
        "instr-many" => {
            go(&[a, b], Unit::Instr(0, true), &[], true, y)?;
        }
        // one preemption at each instruction of a: from the alloc point `from` until the next
        "instr-one" => {
            for from in 0.. {
                let mut k = 1;
                loop {
                    let r = go(&[a, b], Unit::Instr(from, false), &[(0, k), (1, u64::MAX)], false, y)?;
                    if r[0] < k {
                        break;
                    }
                    k += 1;
                }
                if s().allocs[0] < from {
                    break;
                }
            }
        }
        // n calls at once: each one stops at its point k and the next one starts
        "crowd" => {
            let n = num(2);
            let jobs = vec![a; n];
            for k in 1.. {
                let lifo: Vec<(usize, u64)> = (0..n - 1).map(|t| (t, k)).chain((0..n).rev().map(|t| (t, u64::MAX))).collect();
                let fifo: Vec<(usize, u64)> = (0..n - 1).map(|t| (t, k)).chain((0..n).map(|t| (t, u64::MAX))).collect();
                let r = go(&jobs, Unit::Alloc, &lifo, false, y)?;
                go(&jobs, Unit::Alloc, &fifo, false, y)?;
                if r[0] < k {
                    break;
                }
            }
        }
        // heavy calls: stopped at a grid of points
        "grid" => {
            let r = go(&[a], Unit::Alloc, &[(0, u64::MAX)], false, y)?;
            let total = r[0];
            let g = num(3) as u64;
            for i in 1..g {
                go(&[a, b], Unit::Alloc, &[(0, (total * i / g).max(1)), (1, u64::MAX)], false, y)?;
                go(&[a, b], Unit::Alloc, &[(0, (total * i / g).max(1)), (1, total / 2), (0, u64::MAX)], false, y)?;
            }
        }
        _ => return Err(format!("unknown kind {}", kind)),
    }
    Ok(())
}

// ---------------------------------------------------------------- parent

fn run(args: &[String]) -> String {
    let o = std::process::Command::new("timeout").arg("100").arg(std::env::current_exe().unwrap()).arg("race").args(args).output().expect("run");
    String::from_utf8_lossy(&o.stdout).to_string()
}
fn alone(j: usize) -> &'static String {
    static C: [OnceLock<String>; 64] = [const { OnceLock::new() }; 64];
    C[j].get_or_init(|| run(&["alone".to_string(), j.to_string()]))
}

fn ask(args: &[String]) -> Result<(u64, u64, u64, bool), String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("race").args(args).output().map_err(|e| format!("can't run: {}", e))?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let mut w = t.trim().split(' ');
    let blocked = t.trim().ends_with("blocked");
    if let (Some("ok"), Some(Ok(a)), Some(Ok(b)), Some(Ok(c))) = (w.next(), w.next().map(|x| x.parse()), w.next().map(|x| x.parse()), w.next().map(|x| x.parse())) {
        return Ok((a, b, c, blocked));
    }
    Err(if t.starts_with("fail ") { t[5..].trim().to_string() } else { format!("the process ended with {}: {}", o.status, clip_(&t)) })
}

fn jobs_family(name: &str, space: String, jobs: Vec<Vec<String>>) -> Family {
    let n = jobs.len() as u64;
    let mut f = family(name, space, n, move |b, ctx| {
        if !ctx.next() {
            return;
        }
        let args = &jobs[b as usize];
        let names = || {
            let calls: Vec<String> = args[1..].iter().filter_map(|x| x.parse::<usize>().ok()).take(if args[0] == "crowd" { 1 } else if args[0] == "three" { 3 } else { 2 }).map(|j| op(j).name.clone()).collect();
            format!("calls at once ({}): {}", args.join(" "), calls.join(" | "))
        };
        ctx.sample(names);
        match ask(args) {
            Ok((schedules, switches, points, blocked)) => {
                ctx.stats.evals += schedules.saturating_sub(1);
                ctx.stats.nontrivial += schedules;
                ctx.stats.states += points;
                ctx.stats.transitions += switches;
                ctx.outcome(if blocked { "calls exclude each other: not all schedules" } else { "all calls as alone" });
            }
            Err(w) => ctx.fail(format!("{}\n{}", names(), w)),
        }
    });
    f.hang_s = 300;
    f
}

/// Send and Sync without asking the compiler for them
mod shareable {
    use super::*;
    use std::marker::PhantomData;
    pub trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    pub struct IsSend<T>(PhantomData<T>);
    pub struct IsSync<T>(PhantomData<T>);
    impl<T> No for IsSend<T> {}
    impl<T> No for IsSync<T> {}
    impl<T: Send> IsSend<T> {
        pub const SEND: bool = true;
    }
    impl<T: Sync> IsSync<T> {
        pub const SYNC: bool = true;
    }
    macro_rules! both {
        ($($t:ty),*) => { vec![$((stringify!($t), IsSend::<$t>::SEND, IsSync::<$t>::SYNC)),*] };
    }
    pub fn all() -> Vec<(&'static str, bool, bool)> {
        both!(SetOfRules, Expression, ast::Node, flat::Node, parser::Error, peg::Error, ast::Error, Vec<flat::Node>)
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let all = ops();
    let small: Vec<usize> = (0..all.len()).filter(|&i| all[i].small).collect();
    let big: Vec<usize> = (0..all.len()).filter(|&i| !all[i].small).collect();
    let job = |k: &str, v: &[usize]| -> Vec<String> { std::iter::once(k.to_string()).chain(v.iter().map(|x| x.to_string())).collect() };
    let mut out = vec![];
    out.push(family("shareable", "the public types: rule sets, expressions, trees, errors can be sent to and shared by threads", 1, |_, ctx| {
        for (t, send, sync) in shareable::all() {
            if !ctx.next() {
                continue;
            }
            ctx.nontrivial(true);
            ctx.outcome("Send and Sync");
            if !(send && sync) {
                ctx.fail(format!("{}: Send {}, Sync {}", t, send, sync));
            }
        }
    }));
    let pairs = |x: &[usize], y: &[usize]| -> Vec<(usize, usize)> { x.iter().flat_map(|a| y.iter().map(move |b| (*a, *b))).collect() };
    let everyone: Vec<usize> = (0..all.len()).collect();
    out.push(jobs_family(
        "one-preemption",
        format!("all ordered pairs (x, y) of {} calls that share rules, texts and trees (parse, parse_debug, code, tree operations, macros, merge) and {} more as y (rules_from_peg): x stopped at each one of its allocator operations, y whole, x to its end", small.len(), big.len()),
        pairs(&small, &everyone).iter().map(|(a, b)| job("one", &[*a, *b])).collect(),
    ));
    let two: Vec<usize> = small.iter().copied().step_by(tier.pick(3, 1)).collect();
    out.push(jobs_family(
        "two-preemptions",
        format!("all ordered pairs of {} calls: x stopped at each point, then y stopped at each point, x to its end, y to its end", two.len()),
        pairs(&two, &two).iter().map(|(a, b)| job("two", &[*a, *b])).collect(),
    ));
    let three: Vec<usize> = small.iter().copied().step_by(tier.pick(6, 3)).collect();
    out.push(jobs_family(
        "three-threads",
        format!("all triples of {} calls: x stopped at each point, y stopped at each point, z whole, then x and y", three.len()),
        pairs(&three, &three).iter().flat_map(|(a, b)| three.iter().map(move |c| (*a, *b, *c))).map(|(a, b, c)| job("three", &[a, b, c])).collect(),
    ));
    out.push(jobs_family(
        "whole-calls-between",
        format!("all ordered pairs of the {} calls: y runs whole at every allocator operation of x", all.len()),
        pairs(&everyone, &small).iter().map(|(a, b)| job("many", &[*a, *b])).collect(),
    ));
    let xi: Vec<usize> = small.iter().copied().step_by(tier.pick(2, 1)).collect();
    let yi: Vec<usize> = small.iter().copied().step_by(tier.pick(4, 1)).collect();
    out.push(jobs_family(
        "every-instruction",
        format!("{} x {} calls: y runs whole at every machine instruction of x (outside of the allocator)", xi.len(), yi.len()),
        pairs(&xi, &yi).iter().map(|(a, b)| job("instr-many", &[*a, *b])).collect(),
    ));
    let xo: Vec<usize> = small.iter().copied().step_by(tier.pick(7, 2)).collect();
    let yo: Vec<usize> = small.iter().copied().step_by(tier.pick(9, 4)).collect();
    out.push(jobs_family(
        "one-preemption-anywhere",
        format!("{} x {} calls: x stopped once, at each one of its machine instructions (outside of the allocator), y whole, x to its end", xo.len(), yo.len()),
        pairs(&xo, &yo).iter().map(|(a, b)| job("instr-one", &[*a, *b])).collect(),
    ));
    let counts: Vec<usize> = tier.pick(vec![2, 3, 4, 8, 9, 16, 17, 33, 64], (2..=64).collect());
    out.push(jobs_family(
        "crowd",
        format!("n calls at once, n in {:?}: each one stops at its point k and the next one starts, for every k; they end in the same order, and in the inverse one", counts),
        small.iter().step_by(tier.pick(4, 2)).flat_map(|a| counts.iter().map(move |n| job("crowd", &[*a, *n]))).collect(),
    ));
    let firsts: Vec<usize> = everyone.iter().copied().step_by(tier.pick(3, 1)).collect();
    let chunks = tier.pick(40u64, 400);
    let fp = pairs(&firsts, &firsts);
    let mut f = family(
        "first-calls",
        format!("the first two calls of a process, all ordered pairs of {}: x stopped at each one of its first {} allocator operations, y whole; one process per schedule", firsts.len(), chunks),
        fp.len() as u64,
        move |b, ctx| {
            let (x, y) = fp[b as usize];
            for k in 1..=chunks {
                if !ctx.next() {
                    if ctx.stop() {
                        return;
                    }
                    continue;
                }
                ctx.nontrivial(true);
                let what = || format!("first calls of the process: {} | {}, the first one stopped at its point {}", op(x).name, op(y).name, k);
                ctx.sample(what);
                let o = run(&["first".to_string(), x.to_string(), y.to_string(), k.to_string()]);
                let (points, rest) = o.split_once(' ').unwrap_or(("", ""));
                let (rx, ry) = rest.split_once('\u{1f}').unwrap_or((rest, ""));
                ctx.stats.states += points.parse::<u64>().unwrap_or(0);
                ctx.stats.transitions += 2;
                if rx != *alone(x) || ry != *alone(y) {
                    ctx.fail(format!("{}\nthe first gives  {}\nalone            {}\nthe other gives  {}\nalone            {}", what(), clip_(rx), clip_(alone(x)), clip_(ry), clip_(alone(y))));
                    return;
                }
                ctx.outcome("all calls as alone");
                if points.parse::<u64>().map_or(true, |p| p < k) {
                    break;
                }
            }
        },
    );
    f.hang_s = 120;
    out.push(f);
    let g = tier.pick(8, 64);
    out.push(jobs_family(
        "heavy",
        format!("all ordered pairs of calls on {} (thousands of nested parentheses, lines, rules): x stopped at {} points equally spaced, y whole or half", heavy().len(), g - 1),
        pairs(&(1000..1000 + heavy().len()).collect::<Vec<_>>(), &(1000..1000 + heavy().len()).collect::<Vec<_>>()).iter().map(|(a, b)| job("grid", &[*a, *b, g])).collect(),
    ));
    out
}
