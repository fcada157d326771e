//! Script-driven harness around the real ResponderContext / RequesterContext.
//! One command per stdin line, answers on stdout, every answer ends with a line "end".
mod crypto;
use crypto::*;
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Io {
    inbox: Option<Vec<u8>>,
    rx_fail: bool,
    send_fail: bool,
    interactive: bool,
}
thread_local! {
    static IO: RefCell<Io> = RefCell::new(Io{inbox:None,rx_fail:false,send_fail:false,interactive:false});
    static LASTPANIC: RefCell<String> = RefCell::new(String::new());
}
fn flush_ops() {
    let v = S.with(|x| std::mem::take(&mut x.borrow_mut().log));
    let so = std::io::stdout();
    let mut l = so.lock();
    for s in v {
        let _ = writeln!(l, "{}", s);
    }
}
fn say(s: &str) {
    flush_ops();
    let so = std::io::stdout();
    let mut l = so.lock();
    let _ = writeln!(l, "{}", s);
    let _ = l.flush();
}
fn ask() -> Vec<String> {
    let mut b = String::new();
    if std::io::stdin().lock().read_line(&mut b).unwrap_or(0) == 0 {
        std::process::exit(0);
    }
    b.split_whitespace().map(|s| s.to_string()).collect()
}

struct Dev;
impl SpdmDeviceIo for Dev {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        let (inter, fail) = IO.with(|i| {
            let i = i.borrow();
            (i.interactive, i.send_fail)
        });
        if inter {
            say(&format!("send {}", hx(b)));
            let r = ask();
            if r.first().map(|s| s.as_str()) == Some("ok") {
                Ok(())
            } else {
                Err(SPDM_STATUS_SEND_FAIL)
            }
        } else {
            log(format!("{} {}", if fail { "lost" } else { "out" }, hx(b)));
            if fail {
                Err(SPDM_STATUS_SEND_FAIL)
            } else {
                Ok(())
            }
        }
    }
    fn receive(&mut self, buf: &mut [u8], t: usize) -> Result<usize, usize> {
        let inter = IO.with(|i| i.borrow().interactive);
        if inter {
            say(&format!("recv {}", t));
            let r = ask();
            if r.first().map(|s| s.as_str()) == Some("data") {
                let v = unhx(&r[1]);
                let n = v.len().min(buf.len());
                buf[..n].copy_from_slice(&v[..n]);
                return Ok(n);
            }
            return Err(0);
        }
        IO.with(|i| {
            let mut i = i.borrow_mut();
            if i.rx_fail {
                return Err(0);
            }
            match i.inbox.take() {
                Some(v) => {
                    let n = v.len().min(buf.len());
                    buf[..n].copy_from_slice(&v[..n]);
                    Ok(n)
                }
                None => Err(0),
            }
        })
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}

type Args = HashMap<String, String>;
fn args(t: &[String]) -> Args {
    t.iter()
        .filter_map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}
fn num(a: &Args, k: &str, d: u64) -> u64 {
    match a.get(k) {
        Some(v) => {
            if let Some(h) = v.strip_prefix("0x") {
                u64::from_str_radix(h, 16).unwrap()
            } else {
                v.parse().unwrap()
            }
        }
        None => d,
    }
}
fn ver(n: u8) -> SpdmVersion {
    match n {
        0x10 => SpdmVersion::SpdmVersion10,
        0x11 => SpdmVersion::SpdmVersion11,
        0x12 => SpdmVersion::SpdmVersion12,
        x => SpdmVersion::Unknown(x),
    }
}
fn config(a: &Args) -> SpdmConfigInfo {
    let mut v = [SpdmVersion::Unknown(0); 3];
    for (i, s) in a.get("versions").map(|s| s.as_str()).unwrap_or("10,11,12").split(',').enumerate().take(3) {
        v[i] = ver(u8::from_str_radix(s, 16).unwrap());
    }
    let mut sv = [0u8; 2];
    for (i, s) in a.get("secver").map(|s| s.as_str()).unwrap_or("10,11").split(',').enumerate().take(2) {
        sv[i] = u8::from_str_radix(s, 16).unwrap();
    }
    SpdmConfigInfo {
        spdm_version: v,
        req_capabilities: SpdmRequestCapabilityFlags::from_bits_truncate(num(a, "reqcaps", 0) as u32),
        rsp_capabilities: SpdmResponseCapabilityFlags::from_bits_truncate(num(a, "rspcaps", 0) as u32),
        req_ct_exponent: num(a, "reqct", 0) as u8,
        rsp_ct_exponent: num(a, "rspct", 0) as u8,
        measurement_specification: SpdmMeasurementSpecification::from_bits_truncate(num(a, "measspec", 1) as u8),
        measurement_hash_algo: SpdmMeasurementHashAlgo::from_bits_truncate(num(a, "meashash", 2) as u32),
        base_hash_algo: SpdmBaseHashAlgo::from_bits_truncate(num(a, "hash", 2) as u32),
        base_asym_algo: SpdmBaseAsymAlgo::from_bits_truncate(num(a, "asym", 0x80) as u32),
        dhe_algo: SpdmDheAlgo::from_bits_truncate(num(a, "dhe", 16) as u16),
        aead_algo: SpdmAeadAlgo::from_bits_truncate(num(a, "aead", 2) as u16),
        req_asym_algo: SpdmReqAsymAlgo::from_bits_truncate(num(a, "reqasym", 4) as u16),
        key_schedule_algo: SpdmKeyScheduleAlgo::from_bits_truncate(num(a, "ks", 1) as u16),
        opaque_support: SpdmOpaqueSupport::from_bits_truncate(num(a, "opaque", 2) as u8),
        session_policy: num(a, "policy", 0) as u8,
        runtime_content_change_support: num(a, "rtchange", 1) != 0,
        data_transfer_size: num(a, "dts", 4096) as u32,
        max_spdm_msg_size: num(a, "maxmsg", 4096) as u32,
        heartbeat_period: num(a, "hb", 0) as u8,
        secure_spdm_version: sv,
    }
}
fn provision(a: &Args) -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo {
        my_cert_chain_data: Default::default(),
        my_cert_chain: Default::default(),
        peer_root_cert_data: None,
    };
    for s in 0..8 {
        if let Some(h) = a.get(&format!("chain{}", s)) {
            let d = unhx(h);
            let mut c = SpdmCertChainData::default();
            c.data_size = d.len() as u16;
            c.data[..d.len()].copy_from_slice(&d);
            p.my_cert_chain_data[s] = Some(c);
        }
    }
    if let Some(h) = a.get("root") {
        let d = unhx(h);
        let mut c = SpdmCertChainData::default();
        c.data_size = d.len() as u16;
        c.data[..d.len()].copy_from_slice(&d);
        p.peer_root_cert_data = Some(c);
    }
    p
}
enum Side {
    None,
    R(Box<ResponderContext<'static>>),
    Q(Box<RequesterContext<'static>>),
}
fn transport(a: &Args) -> Box<dyn SpdmTransportEncap> {
    match a.get("transport").map(|s| s.as_str()) {
        Some("doe") => Box::new(pcidoe_transport::PciDoeTransportEncap {}),
        _ => Box::new(mctp_transport::MctpTransportEncap {}),
    }
}
fn snap(c: &SpdmContext) -> String {
    let n = &c.negotiate_info;
    let r = &c.runtime_info;
    let mut ss = vec![];
    for s in c.session.iter() {
        ss.push(format!(
            "{:08x},{},{},{},{},{},{},{},{}",
            s.get_session_id(),
            s.get_session_state().get_u8(),
            s.get_use_psk() as u8,
            s.get_mut_auth_requested().bits(),
            s.get_slot_id(),
            s.heartbeat_period,
            s.secure_spdm_version_sel,
            s.get_request_direction_sequence_number(),
            s.get_response_direction_sequence_number(),
        ));
    }
    let peer: Vec<String> = c
        .peer_info
        .peer_cert_chain
        .iter()
        .map(|p| p.as_ref().map(|x| hx(x.as_ref())).unwrap_or_else(|| ".".into()))
        .collect();
    let hctx = S.with(|x| x.borrow().hctx.len());
    format!(
        "post conn={} ver={} rqc={:x} rsc={:x} rqct={} rsct={} mspec={} mhash={} hash={} asym={} dhe={} aead={} rasym={} ks={} opq={} \
         rqdts={} rqmax={} rsdts={} rsmax={} last={} peer={} temp={} encap={},{},{} hctx={} sess={}",
        r.get_connection_state().get_u8(),
        n.spdm_version_sel.get_u8(),
        n.req_capabilities_sel.bits(),
        n.rsp_capabilities_sel.bits(),
        n.req_ct_exponent_sel,
        n.rsp_ct_exponent_sel,
        n.measurement_specification_sel.bits(),
        n.measurement_hash_sel.bits(),
        n.base_hash_sel.bits(),
        n.base_asym_sel.bits(),
        n.dhe_sel.bits(),
        n.aead_sel.bits(),
        n.req_asym_sel.bits(),
        n.key_schedule_sel.bits(),
        n.opaque_data_support.bits(),
        n.req_data_transfer_size_sel,
        n.req_max_spdm_msg_size_sel,
        n.rsp_data_transfer_size_sel,
        n.rsp_max_spdm_msg_size_sel,
        r.get_last_session_id().map(|x| format!("{:08x}", x)).unwrap_or_else(|| "-".into()),
        peer.join("/"),
        c.peer_info.peer_cert_chain_temp.is_some() as u8,
        c.encap_context.req_slot_id,
        c.encap_context.request_id,
        c.encap_context.encap_cert_size,
        hctx,
        ss.join(";"),
    )
}
fn st(r: &SpdmStatus) -> &'static str {
    if *r == SPDM_STATUS_BUSY_PEER {
        "busy"
    } else if *r == SPDM_STATUS_NOT_READY_PEER {
        "notready"
    } else if *r == SPDM_STATUS_ERROR_PEER {
        "peererr"
    } else if *r == SPDM_STATUS_RESYNCH_PEER {
        "resync"
    } else if *r == SPDM_STATUS_SEND_FAIL {
        "sendfail"
    } else if *r == SPDM_STATUS_RECEIVE_FAIL {
        "recvfail"
    } else {
        "other"
    }
}
fn mst(n: u64) -> SpdmMeasurementSummaryHashType {
    match n {
        0 => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone,
        1 => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb,
        0xff => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll,
        x => SpdmMeasurementSummaryHashType::Unknown(x as u8),
    }
}
fn u(r: SpdmResult) -> Result<String, SpdmStatus> {
    r.map(|_| "-".to_string())
}
fn qop(c: &mut RequesterContext<'static>, op: &str, a: &Args) -> Result<String, SpdmStatus> {
    let sid = a.get("sid").map(|s| u32::from_str_radix(s, 16).unwrap());
    let slot = num(a, "slot", 0) as u8;
    let ms = mst(num(a, "msum", 0));
    match op {
        "version" => u(c.send_receive_spdm_version()),
        "capability" => u(c.send_receive_spdm_capability()),
        "algorithm" => u(c.send_receive_spdm_algorithm()),
        "init" => u(c.init_connection()),
        "digest" => u(c.send_receive_spdm_digest(sid)),
        "certificate" => u(c.send_receive_spdm_certificate(sid, slot)),
        "challenge" => u(c.send_receive_spdm_challenge(slot, ms)),
        "measurement" => {
            let mut total = 0u8;
            let mut rec = SpdmMeasurementRecordStructure::default();
            let mo = match num(a, "op", 0) as u8 {
                0 => SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber,
                0xff => SpdmMeasurementOperation::SpdmMeasurementRequestAll,
                x => SpdmMeasurementOperation::Unknown(x),
            };
            let r = c.send_receive_spdm_measurement(
                sid,
                slot,
                SpdmMeasurementAttributes::from_bits_truncate(num(a, "attr", 0) as u8),
                mo,
                &mut total,
                &mut rec,
            );
            let l = rec.measurement_record_length.get() as usize;
            r.map(|_| format!("{},{},{}", total, rec.number_of_blocks, hx(&rec.measurement_record_data[..l.min(4000)])))
        }
        "kex" => c.send_receive_spdm_key_exchange(slot, ms).map(|s| format!("{:08x}", s)),
        "psk" => {
            let mut h = SpdmPskHintStruct::default();
            let hint = a.get("hint").map(|s| unhx(s));
            if let Some(v) = &hint {
                h.data_size = v.len() as u16;
                h.data[..v.len()].copy_from_slice(v);
            }
            c.send_receive_spdm_psk_exchange(ms, if hint.is_some() { Some(&h) } else { None })
                .map(|s| format!("{:08x}", s))
        }
        "mutauth" => u(c.session_based_mutual_authenticate(sid.unwrap())),
        "finish" => u(c.send_receive_spdm_finish(
            a.get("rslot").map(|_| num(a, "rslot", 0) as u8),
            sid.unwrap(),
        )),
        "pskfinish" => u(c.send_receive_spdm_psk_finish(sid.unwrap())),
        "start" => c.start_session(num(a, "usepsk", 0) != 0, slot, ms).map(|s| format!("{:08x}", s)),
        "heartbeat" => u(c.send_receive_spdm_heartbeat(sid.unwrap())),
        "keyupdate" => u(c.send_receive_spdm_key_update(
            sid.unwrap(),
            match num(a, "op", 1) {
                1 => SpdmKeyUpdateOperation::SpdmUpdateSingleKey,
                2 => SpdmKeyUpdateOperation::SpdmUpdateAllKeys,
                3 => SpdmKeyUpdateOperation::SpdmVerifyNewKey,
                x => SpdmKeyUpdateOperation::Unknown(x as u8),
            },
        )),
        "end" => u(c.end_session(sid.unwrap())),
        "vendor" => {
            let d = unhx(a.get("data").map(|s| s.as_str()).unwrap_or("-"));
            let mut q = VendorDefinedReqPayloadStruct {
                req_length: d.len() as u16,
                vendor_defined_req_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
            };
            q.vendor_defined_req_payload[..d.len()].copy_from_slice(&d);
            c.send_spdm_vendor_defined_request(
                sid,
                RegistryOrStandardsBodyID::DMTF,
                VendorIDStruct { len: 0, vendor_id: [0; 255] },
                q,
            )
            .map(|r| hx(&r.vendor_defined_rsp_payload[..(r.rsp_length as usize).min(MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE)]))
        }
        "appsend" => u(c.send_secured_message(sid.unwrap(), &unhx(&a["data"]), true)),
        "apprecv" => {
            let mut b = [0u8; spdmlib::config::MAX_SPDM_MSG_SIZE];
            c.receive_secured_message(sid.unwrap(), &mut b, false).map(|n| hx(&b[..n]))
        }
        _ => {
            say("bad op");
            std::process::exit(3)
        }
    }
}
fn setup_crypto(a: &Args) {
    S.with(|x| {
        let mut x = x.borrow_mut();
        x.fault_at = a.get("fault").map(|s| s.parse().unwrap()).unwrap_or(-1);
        x.fault_n = 0;
        x.fault_name.clear();
        x.log.clear();
        if let Some(v) = a.get("appout") {
            x.app_out = Some(unhx(v));
        }
        if a.contains_key("noappout") {
            x.app_out = None;
        }
        x.vend_out = a.get("vendout").map(|s| unhx(s));
        x.vend_fail = num(a, "vendfail", 0) != 0;
    });
}
fn main() {
    register();
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        LASTPANIC.with(|p| *p.borrow_mut() = s);
    }));
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
fn run() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        LASTPANIC.with(|p| *p.borrow_mut() = s);
    }));
    let mut side = Side::None;
    loop {
        let t = ask();
        if t.is_empty() {
            continue;
        }
        let a = args(&t[1..]);
        match t[0].as_str() {
            "new" => {
                drop(std::mem::replace(&mut side, Side::None));
                let role = t[1].clone();
                S.with(|x| {
                    let mut x = x.borrow_mut();
                    x.hctx.clear();
                    x.next_ctx = 1;
                    x.ctr = 0;
                    x.log.clear();
                    x.role = if role == "rsp" { b'r' } else { b'q' };
                    x.seed = a.get("seed").cloned().unwrap_or_default();
                    x.nmeas = num(&a, "nmeas", 3) as u8;
                    x.measlen = num(&a, "measlen", 32) as u16;
                    x.fault_at = -1;
                    x.app_out = None;
                    x.vend_out = None;
                    x.vend_fail = false;
                });
                let d: &'static mut dyn SpdmDeviceIo = Box::leak(Box::new(Dev));
                let e: &'static mut dyn SpdmTransportEncap = Box::leak(transport(&a));
                let (cf, pv) = (config(&a), provision(&a));
                if role == "rsp" {
                    IO.with(|i| i.borrow_mut().interactive = false);
                    let c = Box::new(ResponderContext::new(d, e, cf, pv));
                    say(&snap(&c.common));
                    side = Side::R(c);
                } else {
                    IO.with(|i| i.borrow_mut().interactive = true);
                    let c = Box::new(RequesterContext::new(d, e, cf, pv));
                    say(&snap(&c.common));
                    side = Side::Q(c);
                }
                say("end");
            }
            "msg" => {
                // msg data=<hex> [sendfail=1] [rxfail=1] [fault=n] [aux=hex]
                setup_crypto(&a);
                IO.with(|i| {
                    let mut i = i.borrow_mut();
                    i.send_fail = num(&a, "sendfail", 0) != 0;
                    i.rx_fail = num(&a, "rxfail", 0) != 0;
                    i.inbox = a.get("data").map(|s| unhx(s));
                });
                let aux = unhx(a.get("aux").map(|s| s.as_str()).unwrap_or("-"));
                let mut dead = false;
                if let Side::R(c) = &mut side {
                    let r = catch_unwind(AssertUnwindSafe(|| match c.process_message(1000, &aux) {
                        Ok(true) => "ret ok".to_string(),
                        Ok(false) => "ret fail".to_string(),
                        Err((n, b)) => format!("ret raw {}", hx(&b[..n.min(b.len())])),
                    }));
                    match r {
                        Ok(s) => {
                            say(&s);
                            say(&snap(&c.common));
                        }
                        Err(_) => {
                            dead = true;
                            say(&format!("ret panic {}", LASTPANIC.with(|p| p.borrow().clone())));
                        }
                    }
                } else {
                    say("ret dead");
                }
                if dead {
                    std::mem::forget(std::mem::replace(&mut side, Side::None));
                }
                say("end");
            }
            "call" => {
                setup_crypto(&a);
                let op = t[1].clone();
                let mut dead = false;
                if let Side::Q(c) = &mut side {
                    let r = catch_unwind(AssertUnwindSafe(|| match qop(c, &op, &a) {
                        Ok(s) => format!("ret ok {}", s),
                        Err(e) => format!("ret err {}", st(&e)),
                    }));
                    match r {
                        Ok(s) => {
                            say(&s);
                            say(&snap(&c.common));
                        }
                        Err(_) => {
                            dead = true;
                            say(&format!("ret panic {}", LASTPANIC.with(|p| p.borrow().clone())));
                        }
                    }
                } else {
                    say("ret dead");
                }
                if dead {
                    std::mem::forget(std::mem::replace(&mut side, Side::None));
                }
                say("end");
            }
            "setseq" => {
                // setseq <slot> <reqseq> <rspseq>: position the sequence numbers of an established session
                let i: usize = t[1].parse().unwrap();
                let c = match &mut side {
                    Side::R(c) => &mut c.common,
                    Side::Q(c) => &mut c.common,
                    _ => {
                        say("end");
                        continue;
                    }
                };
                c.session[i].set_request_direction_sequence_number(t[2].parse().unwrap());
                c.session[i].set_response_direction_sequence_number(t[3].parse().unwrap());
                say(&snap(c));
                say("end");
            }
            "frame" => {
                // frame <mctp|doe> <encap|decap|encapapp|decapapp> <flag> <outbuflen> <hex>
                let mut e: Box<dyn SpdmTransportEncap> = if t[1] == "doe" {
                    Box::new(pcidoe_transport::PciDoeTransportEncap {})
                } else {
                    Box::new(mctp_transport::MctpTransportEncap {})
                };
                let f = t[3] == "1";
                let n: usize = t[4].parse().unwrap();
                let d = unhx(&t[5]);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut o = vec![0xeeu8; n];
                    match t[2].as_str() {
                        "encap" => match e.encap(&d, &mut o, f) {
                            Ok(k) => format!("ret ok {} {} 0", k, hx(&o[..k])),
                            Err(_) => "ret err".into(),
                        },
                        "decap" => match e.decap(&d, &mut o) {
                            Ok((k, s)) => format!("ret ok {} {} {}", k, hx(&o[..k]), s as u8),
                            Err(_) => "ret err".into(),
                        },
                        "encapapp" => match e.encap_app(&d, &mut o, f) {
                            Ok(k) => format!("ret ok {} {} 0", k, hx(&o[..k])),
                            Err(_) => "ret err".into(),
                        },
                        _ => match e.decap_app(&d, &mut o) {
                            Ok((k, s)) => format!("ret ok {} {} {}", k, hx(&o[..k]), s as u8),
                            Err(_) => "ret err".into(),
                        },
                    }
                }));
                match r {
                    Ok(s) => say(&s),
                    Err(_) => say(&format!("ret panic {}", LASTPANIC.with(|p| p.borrow().clone()))),
                }
                say("end");
            }
            "x509" => {
                // x509 <algo bits> <hex>: the format check of a certificate chain
                let a = spdmlib::protocol::SpdmBaseAsymAlgo::from_bits_truncate(t[1].parse().unwrap());
                let d = unhx(&t[2]);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    match spdmlib::crypto::check_cert_chain_format(&d, a) {
                        Ok(k) => format!("ret ok {} - 0", k),
                        Err(_) => "ret err".into(),
                    }
                }));
                match r {
                    Ok(s) => say(&s),
                    Err(_) => say(&format!("ret panic {}", LASTPANIC.with(|p| p.borrow().clone()))),
                }
                say("end");
            }
            "quit" => return,
            _ => {
                say("bad command");
                say("end");
            }
        }
    }
}
