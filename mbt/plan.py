"""Which scenario families decide which property: {property: {family: (quick, thorough)}}.  A family's side decides the trace module."""
import fam_rsp, fam_req, fam_frm, fam_pair, fam_ctl, fam_qctl
SIDE = {f: "rsp" for f in fam_rsp.FAM}; SIDE.update({f: "req" for f in fam_req.FAM})
SIDE.update({f: "frm" for f in fam_frm.FAM}); SIDE.update({f: "pair" for f in fam_pair.FAM}); SIDE.update({f: "rsp" for f in fam_ctl.FAM}); SIDE.update({f: "req" for f in fam_qctl.FAM})
MODULE = dict(rsp="RspTrace", req="ReqTrace", frm="FrmTrace", pair="PairTrace")
MOD = dict(rsp=fam_rsp, req=fam_req, frm=fam_frm, pair=fam_pair)
def run(proc, fam, k, seed, sc, **kw):
    return (fam_ctl if fam in fam_ctl.FAM else fam_qctl if fam in fam_qctl.FAM else MOD[SIDE[fam]]).run(proc, fam, k, seed, sc, **kw)
BASE = dict(walk=60, phase=40, sphase=40, fuzz=20)
W = dict(
    C01=dict(phase=330, sphase=120, walk=120), C02=dict(phase=200, neg=160, sphase=120), C03=dict(hit=160, walk=160, neg=80, sess=60),
    C04=dict(neg=350, phase=100), C05=dict(fin=200, psk=80, encap=100, sphase=100), C06=dict(sess=120, fin=120, encap=80, psk=80),
    C07=dict(rec=260, ku=60, app=60), C08=dict(ku=260, rec=60), C09=dict(limit=100, sess=160, fin=60), C10=dict(auth=220, hit=80, dts=40),
    C11=dict(smeas=240, auth=100, dts=40), C12=dict(auth=200, dts=60, neg=60), C13=dict(auth=200, neg=60), C14=dict(encap=260, fin=60, algo=4),
    C15=dict(app=200, sphase=60, rec=40), C16=dict(dts=260), C17=dict(fuzz=250, fault=60, rec=60, neg=60), C19=dict(sphase=160, phase=160, hit=100, encap=60),
    C20=dict(psk=220, fin=60), C21=dict(auth=60, sess=60, psk=80, fault=80), C22=dict(fault=330), C23=dict(hit=160, phase=120, sphase=80, ku=40),
    C24=dict(sess=100, psk=100, neg=60),
    C25=dict(x_len=24, x_type=16, x_dlen=8, x_big=6, x_rand=200, rec=80, app=60, fuzz=80, dts=40, q_rec=60, q_fuzz=40),
    C26=dict(c_good=9, c_real=12, c_edit=150, c_cut=48))
# the requester's families
QBASE = dict(q_walk=40, q_phase=20, q_err=20)
Q = dict(C02=dict(q_phase=60, q_neg=80, q_hit=40), C03=dict(q_hit=120, q_neg=30), C04=dict(q_neg=250), C05=dict(q_kex=80, q_mut=60, q_psk=40),
    C06=dict(q_kex=80, q_mut=40, q_psk=40, q_sess=30), C07=dict(q_rec=150, q_seq=60, q_ku=30), C08=dict(q_ku=150), C09=dict(q_limit=60, q_sess=80),
    C10=dict(q_auth=100, q_chash=3), C11=dict(q_meas=140), C12=dict(q_auth=150), C13=dict(q_auth=50), C14=dict(q_mut=150, q_algo=3), C15=dict(q_sess=80, q_rec=80),
    C16=dict(q_dts=140), C17=dict(q_fuzz=120, q_fault=40, q_rec=40), C18=dict(q_err=260, q_phase=150, q_walk=100, q_rec=60, q_mut=40, q_auth=40), C20=dict(q_psk=140), C21=dict(q_kex=40, q_psk=40, q_auth=40),
    C22=dict(q_fault=250), C23=dict(q_lost=150), C24=dict(q_kex=60, q_psk=60, q_neg=20))
# both ends together
PAIR = dict(C03=dict(p_flow=20), C04=dict(p_offer=80), C05=dict(p_edit=80), C06=dict(p_edit=80, p_each=20), C07=dict(p_wire=60), C08=dict(p_flow=30), C09=dict(p_wire=20), C10=dict(p_flow=40), C11=dict(p_flow=30),
    C15=dict(p_wire=30), C17=dict(p_wire=30), C20=dict(p_edit=80), C27=dict(p_flow=300, p_each=144, p_wire=60, p_edit=40))
ONLYREQ = {"C18"}
def families(prop, tier):
    d = {} if prop in ONLYREQ | {"C25", "C26", "C27"} else dict(BASE)
    for f, n in W.get(prop, {}).items(): d[f] = n
    if prop in Q: d.update(QBASE)
    for f, n in Q.get(prop, {}).items(): d[f] = n
    for f, n in PAIR.get(prop, {}).items(): d[f] = n
    m = 1 if tier == "quick" else 10
    return {f: min(n * m, fam_frm.SIZE.get(f, n * m)) for f, n in d.items()}
CLAIMED = sorted(set(W) | set(Q) | set(PAIR))
