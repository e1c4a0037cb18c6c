use crate::env::*;
use crate::sx::*;
use spdmlib::common::*;
use spdmlib::responder::*;
pub static TABLE: &[(&str, extern "C" fn())] = &[("p_cap", p_cap), ("p_crypto", p_crypto)];

#[no_mangle]
pub extern "C" fn p_cap() {
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    let st = choose(6, "state");
    set_state(&mut ctx.common, st);
    let b: [u8; 20] = sym("msg");
    let n = choose(21, "n") as usize;
    let _ = ctx.handle_spdm_capability(&b[..n]);
    check(sent() <= 1, "one");
    if sent() == 1 && msg(0)[1] == 0x61 {
        cover("caps");
        check(st == 1, "state");
    }
    core::mem::forget(ctx);
}
#[no_mangle]
pub extern "C" fn p_crypto() {
    install();
    let (mut io, mut tr) = (Io, Tr);
    let mut ctx = ResponderContext::new(&mut io, &mut tr, SpdmConfigInfo::default(), SpdmProvisionInfo::default());
    negotiate(&mut ctx.common, any_ver());
    let a: [u8; 16] = sym("a");
    let b: [u8; 16] = sym("b");
    check(ctx.common.append_message_b(&a).is_ok(), "a");
    check(ctx.common.append_message_b(&b).is_ok(), "b");
    let t = m1m2(&ctx.common).unwrap();
    check(eq(t, &cat(&[&a, &b])), "content");
    ctx.common.reset_message_b();
    check(live_hashes() == 0, "live");
    let d1 = spdmlib::crypto::hash::hash_all(ctx.common.negotiate_info.base_hash_sel, &a).unwrap();
    let d2 = spdmlib::crypto::hash::hash_all(ctx.common.negotiate_info.base_hash_sel, &b).unwrap();
    if eq(&a, &b) {
        cover("equal");
        check(d1.as_ref() == d2.as_ref(), "fn");
    } else {
        cover("differ");
        check(d1.as_ref() != d2.as_ref(), "inj");
    }
    check(eq(preimage(d1.as_ref()).unwrap(), &a), "pre");
}
