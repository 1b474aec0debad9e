// C08: table of contents.
#[allow(unused_imports)]
use crate::verif::{Tape, harness, sampled, tape_harness, vany, vassume, vcover, vok, vrange};
#[allow(unused_imports)]
use crate::verif::tape::{any_tape, reader};

// kind: proof
tape_harness!(c08_toc_entry, unwind = 8, {
    let mut buf = [0u8; 16];
    let mut s = any_tape(&mut buf);
    let mut br = reader(&s, &buf);
    let have = vrange(0, 2);
    let mut entries = Vec::with_capacity(4);
    for i in 0..2 {
        if i < have {
            entries.push(i as u32);
        }
    }
    let mut t = IncrementalTocReader { num_entries: 3, permuted: vany(), permutation: Some(Permutation::default()), entries };
    let p = t.permuted;
    let ok = vok(t.read_step(&mut br)).is_some();
    let w = s.u32_sel([(10, 0), (14, 1024), (22, 17408), (30, 4211712)]);
    assert!(ok == !s.short, "truncated entries are rejected");
    if ok {
        assert!(br.total_bits_read() == s.pos, "bits");
        assert!(t.num_read_entries() as usize == have + 1 && t.remaining_entries() as usize == 2 - have && t.is_complete() == (have == 2), "progress");
        assert!(t.entries[have] as u64 == w && t.permuted == p, "section size");
        if t.is_complete() {
            let f = t.finalize();
            assert!(f.entries[0] == 0 && f.entries[1] == 1 && f.entries[2] as u64 == w && f.permuted == p, "finished table");
            std::mem::forget(f);
        } else {
            std::mem::forget(t);
        }
    } else {
        std::mem::forget(t);
    }
});

// kind: sampled(tables of up to 60 entries, permuted or not, read at once and step by step, cut at any byte)
sampled!(c08_toc_sampled, {
    use crate::verif::bits::*;
    let n = vrange(1, 60);
    let mut w = BitW::default();
    let permuted = vrange(0, 1) as u64;
    w.put(permuted, 1);
    if permuted == 1 {
        // no LZ77; 8 contexts in one cluster; prefix code with plain values
        w.put(0, 1);
        w.put(1, 3);
        w.put(1, 1);
        w.put(15, 4);
        let al = vrange(1, n + 1);
        w.var(al - 1, 4);
        prefix::write(&mut w, al);
        for _ in 0..n {
            w.put(vany::<u8>() as u64, 8);
        }
    }
    let cut = w.n;
    w.noise(n * 4 + 4);
    // Where the padding starts is only known to the decoder; clear it by a trial run.
    let histograms = |b: &mut BitReader| -> Result<Permutation> {
        use crate::entropy_coding::decode::{Histograms, SymbolReader};
        let h = Histograms::decode(8, b, true)?;
        let mut r = SymbolReader::new(&h, b, None)?;
        Permutation::decode(n as u32, 0, &h, b, &mut r)
    };
    let _ = cut;
    let (at, perm) = {
        let mut b = BitReader::new(&w.data);
        b.read(1).unwrap();
        let p = if permuted == 1 { histograms(&mut b).ok() } else { Some(Permutation::default()) };
        (b.total_bits_read(), p)
    };
    if vrange(0, 15) > 0 {
        let mut k = at;
        while k % 8 != 0 {
            w.data[k / 8] &= !(1 << (k % 8));
            k += 1;
        }
    }
    if vrange(0, 3) == 0 {
        w.data.truncate(vrange(0, w.data.len()));
    }
    let mut br = BitReader::new(&w.data);
    let all = vok(Toc::read_unconditional(&(), &mut br, &TocNonserialized { num_entries: n as u32 }));
    // step by step, starting over from the last good position with more and more data
    let mut s = BitS::new(&w.data);
    s.pos = at.min(8 * w.data.len());
    s.short = at > 8 * w.data.len();
    let pad = s.read((8 - at % 8) % 8);
    let sizes: Vec<u32> = (0..n).map(|_| (match s.read(2) { 0 => s.read(10), 1 => s.read(14) + 1024, 2 => s.read(22) + 17408, _ => s.read(30) + 4211712 }) as u32).collect();
    let good = perm.is_some() && pad == 0 && !s.short;
    assert!(all.is_some() == good, "accepted iff complete and valid");
    if let Some(t) = &all {
        assert!(t.permuted == (permuted == 1) && t.entries == sizes && Some(&t.permutation) == perm.as_ref(), "table of contents");
        assert!(br.total_bits_read() == s.pos, "bits");
    }
    let mut b2 = BitReader::new(&w.data);
    let inc = (|| -> Result<Toc> {
        let mut t = IncrementalTocReader::new(n as u32, &mut b2)?;
        while !t.is_complete() {
            t.read_step(&mut b2)?;
        }
        Ok(t.finalize())
    })();
    assert!(vok(inc) == all, "step-by-step reading agrees");
});
