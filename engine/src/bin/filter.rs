//! C21: filtered observers, singly, chained and subscribed several times.
use engine::*;
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions};
use std::cell::RefCell;
use std::rc::Rc;

/// an observable that hands what it is told to all its observers, in the order they came
#[derive(Clone, Default)]
struct Hub(Rc<RefCell<Vec<Box<dyn IObserver<Item>>>>>);
#[derive(Clone, Debug, PartialEq)]
struct Item(i32, String);
impl IObservable<Item> for Hub {
    type Subscription<U: IObserver<Item>> = usize;
    fn subscribe<U: IObserver<Item>>(&self, observer: U) -> usize {
        // observers live as long as the hub here
        let b: Box<dyn IObserver<Item> + '_> = Box::new(observer);
        let b: Box<dyn IObserver<Item>> = unsafe { std::mem::transmute(b) };
        self.0.borrow_mut().push(b);
        self.0.borrow().len()
    }
}
#[derive(Clone)]
struct Seen(Rc<RefCell<Vec<Item>>>);
impl IObserver<Item> for Seen {
    fn next(&mut self, item: Item) {
        self.0.borrow_mut().push(item);
    }
}
fn keep(k: (i32, i32), i: &Item) -> bool {
    i.0.rem_euclid(k.0) <= k.1
}
fn filters(rng: &mut Rng, _: Mode) -> R {
    let hub = Hub::default();
    let k = (1 + rng.below(4) as i32, rng.below(3) as i32);
    let l = (1 + rng.below(4) as i32, rng.below(3) as i32);
    let chained = rng.chance(1, 2);
    let subs = 1 + rng.few(3).min(60);
    let logs: Vec<Seen> = (0..subs).map(|_| Seen(Default::default())).collect();
    let before = rng.below(3);
    let mut sent = vec![];
    let mut from = vec![0; subs];
    let send = |n: usize, sent: &mut Vec<Item>, rng: &mut Rng| {
        for _ in 0..n {
            let i = Item(rng.below(9) as i32 - 4, text(rng, 2));
            sent.push(i.clone());
            for o in hub.0.borrow_mut().iter_mut() {
                o.next(i.clone());
            }
        }
    };
    send(before, &mut sent, rng);
    if chained {
        let f = hub.clone().filter(move |i: &Item| keep(k, i)).filter(move |i: &Item| keep(l, i));
        for (n, s) in logs.iter().enumerate() {
            from[n] = sent.len();
            let _ = f.subscribe(s.clone());
            let more = rng.below(4);
            send(more, &mut sent, rng);
        }
    } else {
        let f = hub.clone().filter(move |i: &Item| keep(k, i));
        for (n, s) in logs.iter().enumerate() {
            from[n] = sent.len();
            let _ = f.subscribe(s.clone());
            let more = rng.below(4);
            send(more, &mut sent, rng);
        }
    }
    let more = rng.few(6).min(6000);
    send(more, &mut sent, rng);
    trace(&(k, l, chained, &sent));
    for (n, s) in logs.iter().enumerate() {
        let want: Vec<Item> = sent[from[n]..].iter().filter(|i| keep(k, i) && (!chained || keep(l, i))).cloned().collect();
        if *s.0.borrow() != want {
            return Err(format!(
                "sent {:?} to observer {n} of {subs} through the filters {k:?}{}: it saw {:?}, not {want:?}",
                &sent[from[n]..],
                if chained { format!(" and {l:?}") } else { String::new() },
                s.0.borrow()
            ));
        }
    }
    Ok(())
}
/// items without contents
fn units(rng: &mut Rng, _: Mode) -> R {
    #[derive(Clone, Default)]
    struct Bare(Rc<RefCell<Vec<Box<dyn IObserver<()>>>>>);
    impl IObservable<()> for Bare {
        type Subscription<U: IObserver<()>> = ();
        fn subscribe<U: IObserver<()>>(&self, observer: U) {
            let b: Box<dyn IObserver<()> + '_> = Box::new(observer);
            let b: Box<dyn IObserver<()>> = unsafe { std::mem::transmute(b) };
            self.0.borrow_mut().push(b);
        }
    }
    struct Count(Rc<RefCell<usize>>);
    impl IObserver<()> for Count {
        fn next(&mut self, _: ()) {
            *self.0.borrow_mut() += 1;
        }
    }
    let (subs, sends, pass) = (1 + rng.few(4).min(20), rng.few(6).min(6000), rng.chance(1, 2));
    trace(&(subs, sends, pass));
    let hub = Bare::default();
    let f = hub.clone().filter(move |_: &()| pass);
    let counts: Vec<_> = (0..subs).map(|_| Rc::new(RefCell::new(0))).collect();
    for c in &counts {
        f.subscribe(Count(c.clone()));
    }
    for _ in 0..sends {
        for o in hub.0.borrow_mut().iter_mut() {
            o.next(());
        }
    }
    for (i, c) in counts.iter().enumerate() {
        let want = if pass { sends } else { 0 };
        if *c.borrow() != want {
            return Err(format!("{sends} items without contents to {subs} observers behind a filter that lets {} pass: observer {i} saw {}", if pass { "all" } else { "none" }, c.borrow()));
        }
    }
    Ok(())
}
fn main() {
    engine::main(&[fam("C21", "filters", filters), fam("C21", "units", units)]);
}
