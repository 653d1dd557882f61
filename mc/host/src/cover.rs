//! Covering arrays: rows of settings of factors such that every combination of values of any `t` factors occurs in some row.
//! Deterministic (greedy, with a fixed pseudo-random order); complete by construction, as rows are added until nothing is left.

/// `levels[i]` = number of values of factor i
pub fn cover(levels: &[usize], t: usize) -> Vec<Vec<usize>> {
    let n = levels.len();
    assert!((1..=4).contains(&t) && t <= n);
    // all t-subsets of factors, each with the offset of its block of value combinations
    let mut subs: Vec<Vec<usize>> = vec![];
    let mut c: Vec<usize> = (0..t).collect();
    loop {
        subs.push(c.clone());
        let Some(i) = (0..t).rev().find(|&i| c[i] != i + n - t) else { break };
        c[i] += 1;
        for j in i + 1..t {
            c[j] = c[j - 1] + 1;
        }
    }
    let pos = |c: &[usize]| c.iter().fold(0, |a, &x| a * n + x);
    let mut offset = vec![usize::MAX; n.pow(t as u32)];
    let mut total = 0;
    for c in &subs {
        offset[pos(c)] = total;
        total += c.iter().map(|&f| levels[f]).product::<usize>();
    }
    let cell = |c: &[usize], row: &[usize]| offset[pos(c)] + c.iter().fold(0, |a, &f| a * levels[f] + row[f]);
    let mut open = vec![true; total];
    let mut left = total;
    let mut rows: Vec<Vec<usize>> = vec![];
    let mut seed = 0x9E37_79B9_7F4A_7C15u64;
    let mut rnd = move |k: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 33) as usize) % k
    };
    let mut first = 0;
    while left > 0 {
        // start from a combination that is still missing
        let mut at = subs.len() - 1;
        let (mut lo, mut hi) = (0, subs.len());
        while !open[first] {
            first += 1;
        }
        while lo < hi {
            let mid = (lo + hi) / 2;
            if offset[pos(&subs[mid])] <= first {
                at = mid;
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        let mut row = vec![usize::MAX; n];
        let mut rest = first - offset[pos(&subs[at])];
        for &f in subs[at].iter().rev() {
            row[f] = rest % levels[f];
            rest /= levels[f];
        }
        let mut todo: Vec<usize> = (0..n).filter(|f| row[*f] == usize::MAX).collect();
        for i in (1..todo.len()).rev() {
            todo.swap(i, rnd(i + 1));
        }
        for f in todo {
            let set: Vec<usize> = (0..n).filter(|g| row[*g] != usize::MAX).collect();
            let mut gain = vec![0usize; levels[f]];
            each(&set, t - 1, &mut |d: &[usize]| {
                let mut c: Vec<usize> = d.to_vec();
                c.push(f);
                c.sort_unstable();
                for (v, g) in gain.iter_mut().enumerate() {
                    row[f] = v;
                    *g += open[cell(&c, &row)] as usize;
                }
                row[f] = usize::MAX;
            });
            let best = *gain.iter().max().unwrap();
            let among: Vec<usize> = (0..levels[f]).filter(|v| gain[*v] == best).collect();
            row[f] = among[rnd(among.len())];
        }
        for c in &subs {
            let k = cell(c, &row);
            left -= open[k] as usize;
            open[k] = false;
        }
        rows.push(row);
    }
    rows
}

fn each(set: &[usize], k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(set: &[usize], k: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if k == 0 {
            return f(cur);
        }
        for i in 0..set.len() {
            cur.push(set[i]);
            go(&set[i + 1..], k - 1, cur, f);
            cur.pop();
        }
    }
    go(set, k, &mut vec![], f)
}

#[cfg(test)]
mod tests {
    #[test]
    fn every_combination_occurs() {
        let levels = [3, 2, 5, 2, 3, 4, 2];
        for t in 1..=4 {
            let rows = super::cover(&levels, t);
            let mut missing = 0;
            super::each(&[0, 1, 2, 3, 4, 5, 6], t, &mut |c| {
                let mut seen = std::collections::HashSet::new();
                for r in &rows {
                    seen.insert(c.iter().map(|f| r[*f]).collect::<Vec<_>>());
                }
                missing += c.iter().map(|f| levels[*f]).product::<usize>() - seen.len();
            });
            assert_eq!(missing, 0);
        }
    }
}
