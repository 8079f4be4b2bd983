//! The logger: what it writes, when it stops and what it returns.
use crate::util::*;
use miniboosts::research::*;
use miniboosts::*;
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;

pub fn jobs(r: &mut Reg, thorough: bool) {
    let t = if thorough { 6 } else { 4 };
    job(r, "lines-and-limit-ms", move || logged(t, 0));
    job(r, "lines-and-limit-s", move || logged(t, 1));
    job(r, "lines-and-limit-min", move || logged(t, 2));
    job(r, "many-short-rounds", || short_rounds());
    job(r, "unwritable", unwritable);
    for (k, name) in BOOSTERS.iter().enumerate() {
        job(r, format!("{name}-current-n3"), move || current(k));
        if k != 3 && k != 8 {
            job(r, format!("{name}-logged-n3"), move || real(k));
        }
    }
}
const BOOSTERS: [&str; 11] = [
    "adaboost", "adaboostv", "madaboost", "smoothboost", "lpboost", "softboost", "totalboost", "erlpboost", "mlpboost", "cerlpboost",
    "graphsepboost",
];

/// a booster whose rounds take scheduled times
struct Steps<'a> {
    sample: &'a Sample,
    micros: Vec<u64>,
    stop: usize,
    now: RefCell<Vec<f64>>,
    prepared: Rc<Cell<usize>>,
    iters: Rc<RefCell<Vec<usize>>>,
}
fn bumped(h: &[f64]) -> Table {
    Table { conf: h.iter().map(|c| *c * 0.5 + 7.0).collect() }
}
impl Booster<Table> for Steps<'_> {
    type Output = Table;
    fn name(&self) -> &str {
        "steps"
    }
    fn preprocess<W: WeakLearner<Hypothesis = Table>>(&mut self, _w: &W) {
        self.prepared.set(self.prepared.get() + 1);
        // not part of the boosting rounds
        pass_time(100_000);
    }
    fn boost<W: WeakLearner<Hypothesis = Table>>(&mut self, w: &W, iteration: usize) -> ControlFlow<usize> {
        let k = self.iters.borrow().len();
        self.iters.borrow_mut().push(iteration);
        if k >= self.micros.len() {
            check("stops-at-the-time-limit", false);
            finish()
        }
        let h = w.produce(self.sample, &uniform(self.sample.shape().0));
        *self.now.borrow_mut() = h.conf.clone();
        pass_time(self.micros[k]);
        if k + 1 == self.stop {
            ControlFlow::Break(iteration)
        } else {
            ControlFlow::Continue(())
        }
    }
    fn postprocess<W: WeakLearner<Hypothesis = Table>>(&mut self, _w: &W) -> Table {
        bumped(&self.now.borrow())
    }
}
impl Research for Steps<'_> {
    type Output = Table;
    fn current_hypothesis(&self) -> Table {
        Table { conf: self.now.borrow().clone() }
    }
}
struct Goal(Vec<f64>);
impl ObjectiveFunction<Table> for Goal {
    fn name(&self) -> &str {
        "goal"
    }
    fn eval(&self, s: &Sample, h: &Table) -> f64 {
        // not part of the boosting rounds
        pass_time(300_000);
        dot(&self.0, &h.conf) + s.target()[0]
    }
}
fn loss(s: &Sample, h: &Table) -> f64 {
    h.conf[0] * s.target()[0] + h.conf[1] * s.target()[1]
}

fn log_file(f: impl FnOnce(&std::path::Path)) -> String {
    let dir = scratch_dir();
    let p = dir.join("log.csv");
    f(&p);
    let text = std::fs::read_to_string(&p).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    text
}
/// the three values and the time of every line
fn parse(text: &str) -> Option<Vec<(Vec<f64>, u128)>> {
    let mut lines = text.lines();
    if lines.next() != Some("ObjectiveValue,TrainLoss,TestLoss,Time") {
        return None;
    }
    let mut out = vec![];
    for l in lines {
        let w: Vec<&str> = l.split(',').collect();
        if w.len() != 4 {
            return None;
        }
        let v: Result<Vec<f64>, _> = w[..3].iter().map(|x| x.parse::<f64>()).collect();
        match (v, w[3].parse::<u128>()) {
            (Ok(v), Ok(t)) => out.push((v, t)),
            _ => return None,
        }
    }
    Some(out)
}

fn logged(t: usize, unit: usize) {
    let scale = [1u64, 500, 30_000][unit];
    let n = 2;
    let train = labelled(&confs("y", n));
    let test = labelled(&confs("z", n));
    let hs: Vec<Vec<f64>> = (0..t).map(|_| confs("h", n)).collect();
    let coef = confs("c", n);
    let stop = choose("stop", t) + 1;
    let limited = choose("limit", 2) == 1;
    let built = choose("builder", 2) == 1;
    // a limit of 2 ms, 1 s or 1 min
    let micros: Vec<u64> = (0..t).map(|k| if k < stop { [0, 700, 2900][choose("time", 3)] * scale } else { 0 }).collect();
    let (prepared, iters): (Rc<Cell<usize>>, Rc<RefCell<Vec<usize>>>) = Default::default();
    let b = Steps {
        sample: &train,
        micros: micros.clone(),
        stop,
        now: RefCell::new(vec![]),
        prepared: prepared.clone(),
        iters: iters.clone(),
    };
    let wl = Script::new(hs.clone());
    let mut log = if built {
        let l = LoggerBuilder::new()
            .booster(b)
            .weak_learner(wl)
            .train_sample(&train)
            .test_sample(&test)
            .objective_function(Goal(coef.clone()))
            .loss_function(loss);
        let l = if limited {
            match unit {
                0 => l.time_limit_as_millis(2),
                1 => l.time_limit_as_secs(1),
                _ => l.time_limit_as_mins(1),
            }
        } else {
            l
        };
        l.print_every(2).build()
    } else {
        let l = Logger::new(b, wl, Goal(coef.clone()), loss, &train, &test);
        let l = if limited {
            match unit {
                0 => l.time_limit_as_millis(2),
                1 => l.time_limit_as_secs(1),
                _ => l.time_limit_as_mins(1),
            }
        } else {
            l
        };
        l.print_every(usize::MAX)
    };
    let mut f = None;
    let text = log_file(|p| f = log.run(p).ok());
    check("one-preprocessing", prepared.get() == 1);
    let done = iters.borrow().len();
    check("rounds-are-counted", *iters.borrow() == (1..=done).collect::<Vec<_>>());
    check("runs-at-least-once-and-stops-with-the-booster", done >= 1 && done <= stop);
    let limit = [2_000u64, 1_000_000, 60_000_000][unit];
    for k in 1..=stop {
        let spent: u64 = micros[..k].iter().sum();
        if limited && spent >= limit + 1000 {
            check("stops-at-the-time-limit", done <= k);
            break;
        }
        if k < stop && (!limited || spent < limit) {
            check("goes-on-below-the-time-limit", done > k);
        }
    }
    if limited {
        cover("limited");
    }
    match f {
        None => check("returns-the-output-of-the-booster", false),
        Some(f) => check("returns-the-output-of-the-booster", same(&f.conf, &bumped(&hs[done - 1]).conf)),
    }
    let lines = match parse(&text) {
        Some(l) => l,
        None => {
            check("format", false);
            finish()
        }
    };
    check("one-line-per-round", lines.len() == done);
    for (k, (v, time)) in lines.iter().enumerate() {
        let h = Table { conf: hs[k].clone() };
        observe("objective", v[0]);
        check("objective-value", eq(v[0], dot(&coef, &h.conf) + train.target()[0]));
        check("training-loss", eq(v[1], loss(&train, &h)));
        check("test-loss", eq(v[2], loss(&test, &h)));
        let spent: u64 = micros[..=k].iter().sum();
        check("time-of-the-rounds", *time * 1000 <= spent as u128 + 999 && *time * 1000 + 999 >= spent as u128);
    }
}

/// rounds shorter than a millisecond add up
fn short_rounds() {
    let train = labelled(&pos_first(2));
    let hs: Vec<Vec<f64>> = (0..6).map(|_| confs("h", 2)).collect();
    let (prepared, iters): (Rc<Cell<usize>>, Rc<RefCell<Vec<usize>>>) = Default::default();
    let each = [300u64, 600, 900][choose("time", 3)];
    let b = Steps { sample: &train, micros: vec![each; 6], stop: 99, now: RefCell::new(vec![]), prepared, iters: iters.clone() };
    let mut log = Logger::new(b, Script::new(hs), Goal(vec![1.0, 1.0]), loss, &train, &train).time_limit_as_millis(0);
    log_file(|p| {
        let _ = log.run(p);
    });
    let spent = iters.borrow().len() as u64 * each;
    check("stops-at-the-time-limit", spent < 1000 + each);
}

fn unwritable() {
    let train = labelled(&pos_first(2));
    let (prepared, iters): (Rc<Cell<usize>>, Rc<RefCell<Vec<usize>>>) = Default::default();
    let b = Steps { sample: &train, micros: vec![0], stop: 1, now: RefCell::new(vec![]), prepared, iters };
    let mut log = Logger::new(b, Script::new(vec![confs("h", 2)]), Goal(vec![1.0, 1.0]), loss, &train, &train);
    let dir = scratch_dir();
    let gone = dir.join("no").join("such").join("log.csv");
    let r = log.run(&gone);
    std::fs::remove_dir_all(&dir).unwrap();
    check("failure-to-write-is-an-error", r.is_err());
}

/// boosters with two or three hypotheses, the last one is perfect
struct Bench {
    y: Vec<f64>,
    hs: Vec<Vec<f64>>,
}
fn bench(imperfect: usize) -> Bench {
    let y = pos_first(3);
    let mut hs: Vec<Vec<f64>> = (0..imperfect)
        .map(|_| {
            // right on at least one row and wrong on one
            let k = choose("hypothesis", 6) + 1;
            (0..3).map(|i| if k >> i & 1 == 1 { y[i] } else { -y[i] }).collect()
        })
        .collect();
    hs.push(y.clone());
    Bench { y, hs }
}
fn cap() -> f64 {
    2.0
}
macro_rules! with_booster {
    ($k:expr, $s:expr, $go:ident ! ($($x:tt)*)) => {{
        let nu = cap();
        match $k {
            0 => $go!(AdaBoost::init($s), $($x)*),
            1 => $go!(AdaBoostV::init($s).tolerance(0.2), $($x)*),
            2 => $go!(MadaBoost::init($s), $($x)*),
            3 => $go!(SmoothBoost::init($s).gamma(0.25), $($x)*),
            4 => $go!(LPBoost::init($s).nu(nu).tolerance(0.25), $($x)*),
            5 => $go!(SoftBoost::init($s).nu(nu).tolerance(0.5), $($x)*),
            6 => $go!(TotalBoost::init($s).tolerance(0.5), $($x)*),
            7 => $go!(ERLPBoost::init($s).nu(nu).tolerance(0.25), $($x)*),
            8 => $go!(MLPBoost::init($s).nu(nu).tolerance(0.25), $($x)*),
            9 => $go!(CERLPBoost::init($s).nu(nu).tolerance(0.25), $($x)*),
            _ => $go!(GraphSepBoost::init($s), $($x)*),
        }
    }};
}
/// MLPBoost is expensive
fn imperfect(which: usize) -> usize {
    if which == 8 {
        1
    } else {
        2
    }
}
/// the combined hypothesis at any stage is the one the booster would return
fn current(which: usize) {
    let t = imperfect(which);
    let c = bench(t);
    let s = labelled(&c.y);
    let wl = Script::open(c.hs.clone());
    let k = choose("rounds", t + 1) + 1;
    macro_rules! go {
        ($b:expr, $s:expr) => {{
            let mut b = $b;
            b.preprocess(&wl);
            for i in 1..=k {
                if b.boost(&wl, i).is_break() {
                    break;
                }
            }
            let f = b.current_hypothesis();
            let g = b.postprocess(&wl);
            agree(which, $s, &f, &g);
        }};
    }
    with_booster!(which, &s, go!(&s));
}
fn agree<F: Classifier, G: Classifier>(which: usize, s: &Sample, f: &F, g: &G) {
    if which == 5 || which == 6 {
        // optimal for the same linear program
        let nu = if which == 5 { cap() } else { 1.0 };
        let o = SoftMarginObjective::new(nu);
        check("current-hypothesis-as-good-as-the-output", close(o.eval(s, f), o.eval(s, g), 1e-6));
    } else {
        check("current-hypothesis-is-the-output", all(3, |i| close(f.confidence(s, i), g.confidence(s, i), 1e-9)));
    }
}
struct Sum;
impl<H: Classifier> ObjectiveFunction<H> for Sum {
    fn name(&self) -> &str {
        "sum"
    }
    fn eval(&self, s: &Sample, h: &H) -> f64 {
        h.confidence(s, 0) + h.confidence(s, 1) * 2.0
    }
}
/// the last line is about the returned hypothesis
fn real(which: usize) {
    let c = bench(imperfect(which));
    let s = labelled(&c.y);
    let wl = Script::open(c.hs.clone());
    let seen = wl.seen.clone();
    let soft = SoftMarginObjective::new(if which == 6 { 1.0 } else { cap() });
    macro_rules! go {
        ($b:expr, $s:expr) => {{
            let mut log = Logger::new($b, wl, Sum, |s: &Sample, h: &_| soft.eval(s, h), $s, $s).print_every(usize::MAX);
            let mut f = None;
            let text = log_file(|p| f = log.run(p).ok());
            let f = f.unwrap();
            let lines = match parse(&text) {
                Some(l) if !l.is_empty() => l,
                _ => {
                    check("format", false);
                    finish()
                }
            };
            let rounds = seen.borrow().len();
            check("one-line-per-round", lines.len() == rounds || lines.len() == rounds + 1);
            let v = &lines[lines.len() - 1].0;
            if which != 5 && which != 6 {
                check("last-line-is-about-the-output", close(v[0], Sum.eval($s, &f), 1e-9));
            }
            check("last-line-is-about-the-output", and(vec![close(v[1], soft.eval($s, &f), 1e-6), close(v[2], v[1], 1e-9)]));
        }};
    }
    with_booster!(which, &s, go!(&s));
}
