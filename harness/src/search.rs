//! What a search did and found.
use crate::Found;

pub struct Search {
    pub evals: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub found: Option<Found>,
}

impl Search {
    pub fn new() -> Self {
        Search { evals: 0, distinct: Default::default(), samples: vec![], found: None }
    }
    pub fn note(&mut self, key: &str) {
        use std::hash::{Hash, Hasher};
        let mut s = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut s);
        self.distinct.insert(s.finish());
        self.evals += 1;
        if self.evals.is_power_of_two() && self.samples.len() < 12 {
            let mut k = key.to_string();
            if k.len() > 200 {
                k = format!("{}…", k.chars().take(200).collect::<String>());
            }
            self.samples.push(k);
        }
    }
}
