//! Untyped points (U01).

use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::Property;
use crate::{ensure, with_prim};
use pasture_core::containers::*;
use std::io::{Read, Seek, SeekFrom, Write};

/// `avail`: number of bytes of the point that exist (less than the point size for a short slice)
fn history<U: UntypedPoint>(g: &mut Gen, u: &mut U, m: &Model, p: &mut Pt, avail: usize, mem: &mut Vec<u8>) -> PResult {
    let steps = g.range(1, 10);
    let mut done = 0;
    for _ in 0..steps {
        let a = g.range(0, m.defs.len() - 1);
        let d = m.defs[a].clone();
        let dt = d.datatype();
        let there = m.offs[a] + m.sizes[a] <= avail;
        match g.range(0, 8) {
            0 => {
                let v = g.bytes(m.sizes[a]);
                g.note(|| format!("set_raw_attribute({d})"));
                let r = u.set_raw_attribute(&d, &v);
                ensure!(r.is_ok() == there, "set_raw_attribute({d}) is {:?}", r);
                if there { p[a] = v; done += 1; }
            }
            1 => {
                let n = loop { let n = g.range(0, m.sizes[a] + 4); if n != m.sizes[a] { break n; } if g.tape.len() > 5000 { return Ok(()); } };
                g.note(|| format!("set_raw_attribute({d}) with {n} bytes"));
                let v = g.bytes(n);
                ensure!(u.set_raw_attribute(&d, &v).is_err(), "set_raw_attribute({d}) accepted {n} bytes");
            }
            2 => {
                g.note(|| format!("get_raw_attribute_mut({d})"));
                match u.get_raw_attribute_mut(&d) {
                    Ok(r) => {
                        ensure!(there && r == &p[a][..], "get_raw_attribute_mut({d}) is {:?}, expected {:?}", r, p[a]);
                        let v = g.bytes(m.sizes[a]);
                        r.copy_from_slice(&v);
                        p[a] = v;
                        done += 1;
                    }
                    Err(e) => ensure!(!there, "get_raw_attribute_mut({d}) failed: {e}"),
                }
            }
            3 | 4 => {
                let to = if g.chance(1, 3) && PRIMS.contains(&dt) { dt } else { *g.choose(&PRIMS) };
                let v = gen_value(g, to);
                g.note(|| format!("set_attribute::<{to}>({d}, {v:?})"));
                with_prim!(to, T => {
                    let x: T = bytemuck::pod_read_unaligned(&v);
                    let r = u.set_attribute::<T>(&d, &x);
                    let ok = there && castable(to, dt);
                    ensure!(r.is_ok() == ok, "set_attribute::<{to}>({d}) is {:?}", r);
                    if ok {
                        let want = ref_cast(to, dt, &v).unwrap();
                        let got = u.get_raw_attribute(&d).unwrap().to_vec();
                        ensure!(same_value(dt, &got, &want), "set_attribute::<{to}>({d}, {v:?}) stored {:?}, expected {:?}", got, want);
                        p[a] = got;
                        done += 1;
                    } else {
                        g.class("refused write");
                    }
                }, ());
            }
            5 | 6 => {
                let to = if g.chance(1, 3) && PRIMS.contains(&dt) { dt } else { *g.choose(&PRIMS) };
                g.note(|| format!("get_attribute::<{to}>({d})"));
                with_prim!(to, T => {
                    let r = u.get_attribute::<T>(&d);
                    let ok = there && castable(dt, to);
                    ensure!(r.is_ok() == ok, "get_attribute::<{to}>({d}) is {:?}", r);
                    if let Ok(x) = r {
                        let want = ref_cast(dt, to, &p[a]).unwrap();
                        ensure!(same_value(to, bytemuck::bytes_of(&x), &want), "get_attribute::<{to}>({d}) is {:?}, expected {:?} (stored {:?})", bytemuck::bytes_of(&x), want, p[a]);
                    } else {
                        g.class("refused read");
                    }
                }, ());
            }
            7 => {
                // an attribute that is not there: other name, or same name and other type
                let t = gen_type(g, true);
                let near = if g.chance(1, 2) { def(d.name().to_string(), t) } else { def("no such attribute", dt) };
                if near == d { continue; }
                g.note(|| format!("accesses to {near}"));
                let v = vec![0x5Au8; ref_size(near.datatype()) as usize];
                ensure!(u.get_raw_attribute(&near).is_err(), "get_raw_attribute({near}) succeeded");
                ensure!(u.get_raw_attribute_mut(&near).is_err(), "get_raw_attribute_mut({near}) succeeded");
                ensure!(u.set_raw_attribute(&near, &v).is_err(), "set_raw_attribute({near}) succeeded");
                let to = if PRIMS.contains(&near.datatype()) { near.datatype() } else { DT::U8 };
                with_prim!(to, T => {
                    ensure!(u.get_attribute::<T>(&near).is_err(), "get_attribute({near}) succeeded");
                    let x: T = bytemuck::Zeroable::zeroed();
                    ensure!(u.set_attribute::<T>(&near, &x).is_err(), "set_attribute({near}) succeeded");
                }, ());
                if PRIMS.contains(&dt) {
                    with_prim!(dt, T => {
                        ensure!(u.get_attribute::<T>(&near).is_err(), "get_attribute::<{dt}>({near}) succeeded");
                        let x: T = bytemuck::Zeroable::zeroed();
                        ensure!(u.set_attribute::<T>(&near, &x).is_err(), "set_attribute::<{dt}>({near}) succeeded");
                    }, ());
                }
                g.class("absent attribute");
            }
            _ => {
                if avail == 0 { continue; }
                let off = g.range(0, avail - 1);
                let n = g.range(1, (avail - off).min(4));
                let v = g.bytes(n);
                g.note(|| format!("cursor write of {n} bytes at {off}"));
                let mut c = u.get_cursor();
                c.seek(SeekFrom::Start(off as u64)).map_err(|e| Failure { msg: e.to_string(), sig: String::new() })?;
                ensure!(c.write_all(&v).is_ok(), "cursor write failed");
                c.set_position(off as u64);
                let mut back = vec![0u8; n];
                ensure!(c.read_exact(&mut back).is_ok() && back == v, "cursor reads {:?}, wrote {:?}", back, v);
                mem[off..off + n].copy_from_slice(&v);
                for (i, pa) in p.iter_mut().enumerate() {
                    for k in 0..m.sizes[i] {
                        let at = m.offs[i] + k;
                        if at >= off && at < off + n {
                            pa[k] = v[at - off];
                        }
                    }
                }
                done += 1;
            }
        }
        // everything is where it should be, and nothing else changed (padding included)
        for i in 0..m.defs.len() {
            for k in 0..m.sizes[i] {
                if m.offs[i] + k < avail { mem[m.offs[i] + k] = p[i][k]; }
            }
        }
        ensure!(u.get_buffer() == &mem[..], "the point's memory is {:?}, expected {:?}", u.get_buffer(), mem);
        ensure!(u.get_layout() == &m.layout, "get_layout() changed");
        for (i, d) in m.defs.iter().enumerate() {
            if m.offs[i] + m.sizes[i] <= avail {
                match u.get_raw_attribute(d) {
                    Ok(r) => ensure!(r == &p[i][..], "get_raw_attribute({d}) is {:?}, expected {:?}", r, p[i]),
                    Err(e) => return fail(format!("get_raw_attribute({d}) failed: {e}")),
                }
            } else {
                ensure!(u.get_raw_attribute(d).is_err(), "get_raw_attribute({d}) succeeded on a buffer that is too short");
            }
        }
    }
    if done >= 2 {
        g.mark();
    }
    Ok(())
}

fn u01_points(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 6, true);
    let m = Model::new(&layout);
    match g.range(0, 2) {
        0 => {
            let mut u = UntypedPointBuffer::new(&layout);
            let mut p = m.zero();
            ensure!(u.get_buffer().len() == m.psize && u.get_buffer().iter().all(|b| *b == 0), "a new untyped point is not zero");
            let mut mem = vec![0u8; m.psize];
            history(g, &mut u, &m, &mut p, m.psize, &mut mem)
        }
        1 => {
            let mut p = m.gen_pt(g);
            let extra = if g.chance(1, 4) { g.range(1, 9) } else { 0 };
            let mut store = m.encode(&p, 0x44);
            store.extend(vec![0x99u8; extra]);
            let mut mem = store.clone();
            let r = {
                let mut u = UntypedPointSlice::new(&layout, &mut store);
                history(g, &mut u, &m, &mut p, m.psize, &mut mem)
            };
            r?;
            ensure!(store == mem, "the memory behind an untyped point slice is {:?}, expected {:?}", store, mem);
            Ok(())
        }
        _ => {
            // a slice that is too short for the layout
            let mut p = m.gen_pt(g);
            let avail = g.range(0, m.psize - 1);
            let mut store = m.encode(&p, 0x44);
            store.truncate(avail);
            let mut mem = store.clone();
            g.note(|| format!("slice of {avail} bytes"));
            g.class("short slice");
            let mut u = UntypedPointSlice::new(&layout, &mut store);
            history(g, &mut u, &m, &mut p, avail, &mut mem)
        }
    }
}

pub fn u01() -> Property {
    Property { id: "U01", rule: "at least two successful writes in the history", sections: vec![sec("points", u01_points, 2_000_000, 40)] }
}
