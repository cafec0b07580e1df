use miniboosts::prelude::*;
use std::cell::RefCell;
use std::io::Write;
use std::ops::ControlFlow;

/// A hypothesis given by its table of confidences.
#[derive(Clone, Debug, PartialEq)]
struct Tab(Vec<f64>);
impl Classifier for Tab {
    fn confidence(&self, _s: &Sample, r: usize) -> f64 { self.0[r] }
}
impl Regressor for Tab {
    fn predict(&self, _s: &Sample, r: usize) -> f64 { self.0[r] }
}

/// A weak learner that plays a fixed list of hypotheses and records the distributions it gets.
struct Script { hs: Vec<Tab>, log: RefCell<Vec<Vec<f64>>> }
impl WeakLearner for Script {
    type Hypothesis = Tab;
    fn name(&self) -> &str { "script" }
    fn produce(&self, _s: &Sample, d: &[f64]) -> Tab {
        let k = self.log.borrow().len();
        self.log.borrow_mut().push(d.to_vec());
        self.hs[k % self.hs.len()].clone()
    }
}
fn script(h: &[&[f64]]) -> Script {
    Script { hs: h.iter().map(|x| Tab(x.to_vec())).collect(), log: RefCell::new(vec![]) }
}
fn path(name: &str) -> std::path::PathBuf { std::env::temp_dir().join(name) }
fn write(name: &str, text: &str) -> std::path::PathBuf {
    let p = path(name);
    std::fs::File::create(&p).unwrap().write_all(text.as_bytes()).unwrap();
    p
}
/// A sample with one feature `x` = row number and the given labels.
fn sample(y: &[f64]) -> Sample {
    let mut t = String::from("x,class\n");
    for (i, v) in y.iter().enumerate() { t += &format!("{i},{v}\n"); }
    let p = write("sample.csv", &t);
    SampleReader::default().file(p).has_header(true).target_feature("class").read().unwrap()
}
fn csv(t: &str) -> Sample {
    SampleReader::default().file(write("sample.csv", t)).has_header(true).target_feature("class").read().unwrap()
}
fn svm(t: &str) -> Sample {
    SampleReader::default().file(write("sample.svm", t)).has_header(false).target_feature("class").read().unwrap()
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) }
fn close(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y)) }
