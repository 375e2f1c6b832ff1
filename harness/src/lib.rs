pub mod anchors;
pub mod api;
pub mod args;
pub mod big;
pub mod conc;
pub mod enc;
pub mod life;
pub mod wire;
pub mod world;
use api::choose;
use world::*;

scenarios! {
    c01_steps3 => conc::steps(CONV, &[1, 2], 3, 0);
    c01_steps4 => conc::steps(CONV, &[1, 2], 4, 0);
    c01_three3 => conc::steps(CONV, &[2, 1, 3], 3, 0);
    c01_p1 => conc::script(CONV, &[1, 2], MAXLEN, "i0SEE");
    c01_p2 => conc::script(CONV, &[1, 2], MAXLEN, "d0SEE");
    c01_p4 => conc::script(CONV, &[1, 2], MAXLEN, "d0i1i1");
    c01_p5 => conc::script(CONV, &[1, 2], MAXLEN, "i0Sd0e1e1");
    c01_p6 => conc::script(CONV, &[1, 2], MAXLEN, "i0SXi1i0");
    c01_p7 => conc::script(CONV, &[1, 2], MAXLEN, "i0i1SE");
    c01_p8 => conc::script(CONV, &[1, 2], MAXLEN, "i0i1SXI");
    c01_p9 => conc::script(CONV, &[1, 2], MAXLEN, "i0SSi0i1S*");
    c01_pa => conc::script(CONV, &[1, 2], MAXLEN, "d0SXII");
    c01_pb => conc::script(CONV, &[1, 2], MAXLEN, "i0i0Si1E");
    c01_q1 => conc::script(CONV, &[2, 1, 3], MAXLEN, "III");
    c01_q2 => conc::script(CONV, &[2, 1, 3], MAXLEN, "i0Si1i2i0");
    c01_q3 => conc::script(CONV, &[2, 1, 3], MAXLEN, "i0SIII");
    c01_q4 => conc::script(CONV, &[2, 1, 3], MAXLEN, "d0SIII");
    c01_q5 => conc::script(CONV, &[2, 1, 3], MAXLEN, "i0d1i2");
    c01_q6 => conc::script(CONV, &[2, 1, 3], MAXLEN, "EEg2I");
    c01_l1 => conc::script(CONV, &[1, 2], 20, "L0g0i0E");
    c01_l2 => conc::script(CONV, &[1, 2], 20, "i0L0g0e0e1");
    c01_l3 => conc::script(CONV, &[1, 2], 20, "L0L1SE");
    c01_r1 => conc::script(CONV, &[1, 2], MAXLEN, "k0i1Si0i1");
    c01_r2 => conc::script(CONV, &[2, 1, 3], MAXLEN, "k0g2i1g0i0i2");
    c01_v1 => conc::script(CONV, &[2, 1], MAXLEN, "i0Si0i1");
    c01_v2 => conc::script(CONV, &[3, 1, 2], MAXLEN, "i1Se0e2");
    c01_v3 => conc::reorder(CONV, &[3, 1, 2], "EE", false, 0, "e2");
    c01_y0 => conc::script(CONV, &[1, 2], 20, "Y0E");
    c01_y2 => conc::script(CONV, &[1, 2], 20, "Y0Sk0E");
    c01_z1 => conc::script(CONV, &[1, 2], 4, "Z0d0d0i0");
    c01_z2 => conc::script(CONV, &[2, 1], 4, "Z0Sd0d1");
    c01_z3 => conc::script(CONV, &[1, 2], 4, "Z0Sd1d1i0");
    c01_tt0 => conc::script(CONV, &[1, 2], 20, "i1T0Sx0");
    c01_tt2 => conc::script(CONV, &[2, 1], 20, "T0i1i1");
    c01_b9 => big::then(CONV, &[1, 2], 9, 24, "E");
    c01_b10 => big::then(CONV, &[1, 2], 10, 28, "E");
    c01_b11 => big::then(CONV, &[1, 2], 11, 28, "E");
    c01_t1 => conc::reorder(CONV, &[1, 2, 3], "**", false, 0, "");
    c01_t2 => conc::reorder(CONV, &[1, 2, 3], "j0Sl1j1", false, 1, "");
    c01_t3 => conc::late(CONV, &[1, 2, 3], 20, "j0Sl1j1", "x", "");
    c01_t4 => conc::late(CONV, &[1, 2, 3], 20, "k0k0l0k0k0", "x", "");
    c01_t5 => conc::late(CONV, &[1, 2, 3], 20, "k0j1l0m1", "f", "");
    c01_t6 => conc::script(CONV, &[1, 2], 20, "EEx0E");
    c01_t7 => conc::script(CONV, &[1, 2], MAXLEN, "EEf0E");
    c01_b0 => big::then(CONV, &[1, 2], 0, 20, "E");
    c01_b1 => big::then(CONV, &[1, 2], 1, 20, "E");
    c01_b2 => big::then(CONV, &[1, 2], 2, 14, "E");
    c01_b4 => big::then(CONV, &[1, 2], 4, 30, "E");
    c01_b5 => big::then(CONV, &[1, 2], 5, 30, "E");
    c01_b6 => big::then(CONV, &[1, 2], 6, 20, "E");
    c01_b8 => big::then(CONV, &[1, 2], 8, 20, "E");
    c01_s0 => big::then(CONV, &[1, 2], 0, 6, "EE");
    c01_s1 => big::then(CONV, &[1, 2], 1, 6, "EE");
    c01_s2 => big::then(CONV, &[1, 2], 2, 5, "EE");
    c01_s5 => big::then(CONV, &[1, 2], 5, 10, "EE");
    c01_w1 => big::within(CONV, &[1, 2], 1, 20, "e0e1", 6, 8);
    c01_w5 => big::within(CONV, &[1, 2], 5, 30, "e0e1", 6, 8);
    c01_w3 => big::within(CONV, &[1, 2, 3], 3, 20, "d0i1i2", 6, 9);
    c01_w31 => big::within(CONV, &[1, 2, 3], 3, 40, "d0i1i2", 6, 8);
    c01_w8 => big::within(CONV, &[1, 2, 3], 1, 20, "d0i1i2", 6, 9);
    c01_we3 => big::within(CONV, &[1, 2, 3], 3, 20, "e0e1e2", 6, 9);
    c01_we8 => big::within(CONV, &[1, 2, 3], 8, 20, "e0e1e2", 6, 8);
    c01_we5 => big::within(CONV, &[1, 2, 3], 5, 30, "e0e1e2", 6, 8);
    c02_steps3 => conc::steps(FIT, &[1, 2], 3, 0);
    c02_steps4 => conc::steps(FIT, &[1, 2], 4, 0);
    c02_three3 => conc::steps(FIT, &[2, 1, 3], 3, 0);
    c02_p1 => conc::script(FIT, &[1, 2], MAXLEN, "i0SEE");
    c02_p2 => conc::script(FIT, &[1, 2], MAXLEN, "d0SEE");
    c02_p4 => conc::script(FIT, &[1, 2], MAXLEN, "d0i1i1");
    c02_p5 => conc::script(FIT, &[1, 2], MAXLEN, "i0Sd0e1e1");
    c02_p6 => conc::script(FIT, &[1, 2], MAXLEN, "i0SXi1i0");
    c02_p7 => conc::script(FIT, &[1, 2], MAXLEN, "i0i1SE");
    c02_p8 => conc::script(FIT, &[1, 2], MAXLEN, "i0i1SXI");
    c02_p9 => conc::script(FIT, &[1, 2], MAXLEN, "i0SSi0i1S*");
    c02_pa => conc::script(FIT, &[1, 2], MAXLEN, "d0SXII");
    c02_pb => conc::script(FIT, &[1, 2], MAXLEN, "i0i0Si1E");
    c02_q1 => conc::script(FIT, &[2, 1, 3], MAXLEN, "III");
    c02_q2 => conc::script(FIT, &[2, 1, 3], MAXLEN, "i0Si1i2i0");
    c02_q3 => conc::script(FIT, &[2, 1, 3], MAXLEN, "i0SIII");
    c02_q4 => conc::script(FIT, &[2, 1, 3], MAXLEN, "d0SIII");
    c02_q5 => conc::script(FIT, &[2, 1, 3], MAXLEN, "i0d1i2");
    c02_q6 => conc::script(FIT, &[2, 1, 3], MAXLEN, "EEg2I");
    c02_l1 => conc::script(FIT, &[1, 2], 20, "L0g0i0E");
    c02_l2 => conc::script(FIT, &[1, 2], 20, "i0L0g0e0e1");
    c02_l3 => conc::script(FIT, &[1, 2], 20, "L0L1SE");
    c02_r1 => conc::script(FIT, &[1, 2], MAXLEN, "k0i1Si0i1");
    c02_r2 => conc::script(FIT, &[2, 1, 3], MAXLEN, "k0g2i1g0i0i2");
    c02_v1 => conc::script(FIT, &[2, 1], MAXLEN, "i0Si0i1");
    c02_v2 => conc::script(FIT, &[3, 1, 2], MAXLEN, "i1Se0e2");
    c02_v3 => conc::reorder(FIT, &[3, 1, 2], "EE", false, 0, "e2");
    c02_y0 => conc::script(FIT, &[1, 2], 20, "Y0E");
    c02_y2 => conc::script(FIT, &[1, 2], 20, "Y0Sk0E");
    c02_z1 => conc::script(FIT, &[1, 2], 4, "Z0d0d0i0");
    c02_z2 => conc::script(FIT, &[2, 1], 4, "Z0Sd0d1");
    c02_z3 => conc::script(FIT, &[1, 2], 4, "Z0Sd1d1i0");
    c02_tt0 => conc::script(FIT, &[1, 2], 20, "i1T0Sx0");
    c02_tt2 => conc::script(FIT, &[2, 1], 20, "T0i1i1");
    c02_b9 => big::then(FIT, &[1, 2], 9, 24, "E");
    c02_b10 => big::then(FIT, &[1, 2], 10, 28, "E");
    c02_b11 => big::then(FIT, &[1, 2], 11, 28, "E");
    c02_t1 => conc::reorder(FIT, &[1, 2, 3], "**", false, 0, "");
    c02_t2 => conc::reorder(FIT, &[1, 2, 3], "j0Sl1j1", false, 1, "");
    c02_t3 => conc::late(FIT, &[1, 2, 3], 20, "j0Sl1j1", "x", "");
    c02_t4 => conc::late(FIT, &[1, 2, 3], 20, "k0k0l0k0k0", "x", "");
    c02_t5 => conc::late(FIT, &[1, 2, 3], 20, "k0j1l0m1", "f", "");
    c02_t6 => conc::script(FIT, &[1, 2], 20, "EEx0E");
    c02_t7 => conc::script(FIT, &[1, 2], MAXLEN, "EEf0E");
    c02_b0 => big::then(FIT, &[1, 2], 0, 20, "E");
    c02_b1 => big::then(FIT, &[1, 2], 1, 20, "E");
    c02_b2 => big::then(FIT, &[1, 2], 2, 14, "E");
    c02_b4 => big::then(FIT, &[1, 2], 4, 30, "E");
    c02_b5 => big::then(FIT, &[1, 2], 5, 30, "E");
    c02_b6 => big::then(FIT, &[1, 2], 6, 20, "E");
    c02_b8 => big::then(FIT, &[1, 2], 8, 20, "E");
    c02_s0 => big::then(FIT, &[1, 2], 0, 6, "EE");
    c02_s1 => big::then(FIT, &[1, 2], 1, 6, "EE");
    c02_s2 => big::then(FIT, &[1, 2], 2, 5, "EE");
    c02_s5 => big::then(FIT, &[1, 2], 5, 10, "EE");
    c02_w1 => big::within(FIT, &[1, 2], 1, 20, "e0e1", 6, 8);
    c02_w5 => big::within(FIT, &[1, 2], 5, 30, "e0e1", 6, 8);
    c02_w3 => big::within(FIT, &[1, 2, 3], 3, 20, "d0i1i2", 6, 9);
    c02_w31 => big::within(FIT, &[1, 2, 3], 3, 40, "d0i1i2", 6, 8);
    c02_w8 => big::within(FIT, &[1, 2, 3], 1, 20, "d0i1i2", 6, 9);
    c02_we3 => big::within(FIT, &[1, 2, 3], 3, 20, "e0e1e2", 6, 9);
    c02_we8 => big::within(FIT, &[1, 2, 3], 8, 20, "e0e1e2", 6, 8);
    c02_we5 => big::within(FIT, &[1, 2, 3], 5, 30, "e0e1e2", 6, 8);
    c03_steps3 => conc::steps(LAND, &[1, 2], 3, 0);
    c03_steps4 => conc::steps(LAND, &[1, 2], 4, 0);
    c03_three3 => conc::steps(LAND, &[2, 1, 3], 3, 0);
    c03_p1 => conc::script(LAND, &[1, 2], MAXLEN, "i0SEE");
    c03_p2 => conc::script(LAND, &[1, 2], MAXLEN, "d0SEE");
    c03_p4 => conc::script(LAND, &[1, 2], MAXLEN, "d0i1i1");
    c03_p5 => conc::script(LAND, &[1, 2], MAXLEN, "i0Sd0e1e1");
    c03_p6 => conc::script(LAND, &[1, 2], MAXLEN, "i0SXi1i0");
    c03_p7 => conc::script(LAND, &[1, 2], MAXLEN, "i0i1SE");
    c03_p8 => conc::script(LAND, &[1, 2], MAXLEN, "i0i1SXI");
    c03_p9 => conc::script(LAND, &[1, 2], MAXLEN, "i0SSi0i1S*");
    c03_pa => conc::script(LAND, &[1, 2], MAXLEN, "d0SXII");
    c03_pb => conc::script(LAND, &[1, 2], MAXLEN, "i0i0Si1E");
    c03_q1 => conc::script(LAND, &[2, 1, 3], MAXLEN, "III");
    c03_q2 => conc::script(LAND, &[2, 1, 3], MAXLEN, "i0Si1i2i0");
    c03_q3 => conc::script(LAND, &[2, 1, 3], MAXLEN, "i0SIII");
    c03_q4 => conc::script(LAND, &[2, 1, 3], MAXLEN, "d0SIII");
    c03_q5 => conc::script(LAND, &[2, 1, 3], MAXLEN, "i0d1i2");
    c03_q6 => conc::script(LAND, &[2, 1, 3], MAXLEN, "EEg2I");
    c03_l1 => conc::script(LAND, &[1, 2], 20, "L0g0i0E");
    c03_l2 => conc::script(LAND, &[1, 2], 20, "i0L0g0e0e1");
    c03_l3 => conc::script(LAND, &[1, 2], 20, "L0L1SE");
    c03_r1 => conc::script(LAND, &[1, 2], MAXLEN, "k0i1Si0i1");
    c03_r2 => conc::script(LAND, &[2, 1, 3], MAXLEN, "k0g2i1g0i0i2");
    c03_v1 => conc::script(LAND, &[2, 1], MAXLEN, "i0Si0i1");
    c03_v2 => conc::script(LAND, &[3, 1, 2], MAXLEN, "i1Se0e2");
    c03_v3 => conc::reorder(LAND, &[3, 1, 2], "EE", false, 0, "e2");
    c03_y0 => conc::script(LAND, &[1, 2], 20, "Y0E");
    c03_y2 => conc::script(LAND, &[1, 2], 20, "Y0Sk0E");
    c03_z1 => conc::script(LAND, &[1, 2], 4, "Z0d0d0i0");
    c03_z2 => conc::script(LAND, &[2, 1], 4, "Z0Sd0d1");
    c03_z3 => conc::script(LAND, &[1, 2], 4, "Z0Sd1d1i0");
    c03_tt0 => conc::script(LAND, &[1, 2], 20, "i1T0Sx0");
    c03_tt2 => conc::script(LAND, &[2, 1], 20, "T0i1i1");
    c03_b9 => big::then(LAND, &[1, 2], 9, 24, "E");
    c03_b10 => big::then(LAND, &[1, 2], 10, 28, "E");
    c03_b11 => big::then(LAND, &[1, 2], 11, 28, "E");
    c03_t1 => conc::reorder(LAND, &[1, 2, 3], "**", false, 0, "");
    c03_t2 => conc::reorder(LAND, &[1, 2, 3], "j0Sl1j1", false, 1, "");
    c03_t3 => conc::late(LAND, &[1, 2, 3], 20, "j0Sl1j1", "x", "");
    c03_t4 => conc::late(LAND, &[1, 2, 3], 20, "k0k0l0k0k0", "x", "");
    c03_t5 => conc::late(LAND, &[1, 2, 3], 20, "k0j1l0m1", "f", "");
    c03_t6 => conc::script(LAND, &[1, 2], 20, "EEx0E");
    c03_t7 => conc::script(LAND, &[1, 2], MAXLEN, "EEf0E");
    c03_b0 => big::then(LAND, &[1, 2], 0, 20, "E");
    c03_b1 => big::then(LAND, &[1, 2], 1, 20, "E");
    c03_b2 => big::then(LAND, &[1, 2], 2, 14, "E");
    c03_b4 => big::then(LAND, &[1, 2], 4, 30, "E");
    c03_b5 => big::then(LAND, &[1, 2], 5, 30, "E");
    c03_b6 => big::then(LAND, &[1, 2], 6, 20, "E");
    c03_b8 => big::then(LAND, &[1, 2], 8, 20, "E");
    c03_s0 => big::then(LAND, &[1, 2], 0, 6, "EE");
    c03_s1 => big::then(LAND, &[1, 2], 1, 6, "EE");
    c03_s2 => big::then(LAND, &[1, 2], 2, 5, "EE");
    c03_s5 => big::then(LAND, &[1, 2], 5, 10, "EE");
    c03_w1 => big::within(LAND, &[1, 2], 1, 20, "e0e1", 6, 8);
    c03_w5 => big::within(LAND, &[1, 2], 5, 30, "e0e1", 6, 8);
    c03_w3 => big::within(LAND, &[1, 2, 3], 3, 20, "d0i1i2", 6, 9);
    c03_w31 => big::within(LAND, &[1, 2, 3], 3, 40, "d0i1i2", 6, 8);
    c03_w8 => big::within(LAND, &[1, 2, 3], 1, 20, "d0i1i2", 6, 9);
    c03_we3 => big::within(LAND, &[1, 2, 3], 3, 20, "e0e1e2", 6, 9);
    c03_we8 => big::within(LAND, &[1, 2, 3], 8, 20, "e0e1e2", 6, 8);
    c03_we5 => big::within(LAND, &[1, 2, 3], 5, 30, "e0e1e2", 6, 8);
    c04_steps3 => conc::steps(REMOVE, &[1, 2], 3, 0);
    c04_steps4 => conc::steps(REMOVE, &[1, 2], 4, 0);
    c04_three3 => conc::steps(REMOVE, &[2, 1, 3], 3, 0);
    c04_p1 => conc::script(REMOVE, &[1, 2], MAXLEN, "i0SEE");
    c04_p2 => conc::script(REMOVE, &[1, 2], MAXLEN, "d0SEE");
    c04_p4 => conc::script(REMOVE, &[1, 2], MAXLEN, "d0i1i1");
    c04_p5 => conc::script(REMOVE, &[1, 2], MAXLEN, "i0Sd0e1e1");
    c04_p6 => conc::script(REMOVE, &[1, 2], MAXLEN, "i0SXi1i0");
    c04_p7 => conc::script(REMOVE, &[1, 2], MAXLEN, "i0i1SE");
    c04_p8 => conc::script(REMOVE, &[1, 2], MAXLEN, "i0i1SXI");
    c04_p9 => conc::script(REMOVE, &[1, 2], MAXLEN, "i0SSi0i1S*");
    c04_pa => conc::script(REMOVE, &[1, 2], MAXLEN, "d0SXII");
    c04_pb => conc::script(REMOVE, &[1, 2], MAXLEN, "i0i0Si1E");
    c04_q1 => conc::script(REMOVE, &[2, 1, 3], MAXLEN, "III");
    c04_q2 => conc::script(REMOVE, &[2, 1, 3], MAXLEN, "i0Si1i2i0");
    c04_q3 => conc::script(REMOVE, &[2, 1, 3], MAXLEN, "i0SIII");
    c04_q4 => conc::script(REMOVE, &[2, 1, 3], MAXLEN, "d0SIII");
    c04_q5 => conc::script(REMOVE, &[2, 1, 3], MAXLEN, "i0d1i2");
    c04_q6 => conc::script(REMOVE, &[2, 1, 3], MAXLEN, "EEg2I");
    c04_l1 => conc::script(REMOVE, &[1, 2], 20, "L0g0i0E");
    c04_l2 => conc::script(REMOVE, &[1, 2], 20, "i0L0g0e0e1");
    c04_l3 => conc::script(REMOVE, &[1, 2], 20, "L0L1SE");
    c04_r1 => conc::script(REMOVE, &[1, 2], MAXLEN, "k0i1Si0i1");
    c04_r2 => conc::script(REMOVE, &[2, 1, 3], MAXLEN, "k0g2i1g0i0i2");
    c04_v1 => conc::script(REMOVE, &[2, 1], MAXLEN, "i0Si0i1");
    c04_v2 => conc::script(REMOVE, &[3, 1, 2], MAXLEN, "i1Se0e2");
    c04_v3 => conc::reorder(REMOVE, &[3, 1, 2], "EE", false, 0, "e2");
    c04_y0 => conc::script(REMOVE, &[1, 2], 20, "Y0E");
    c04_y2 => conc::script(REMOVE, &[1, 2], 20, "Y0Sk0E");
    c04_z1 => conc::script(REMOVE, &[1, 2], 4, "Z0d0d0i0");
    c04_z2 => conc::script(REMOVE, &[2, 1], 4, "Z0Sd0d1");
    c04_z3 => conc::script(REMOVE, &[1, 2], 4, "Z0Sd1d1i0");
    c04_tt0 => conc::script(REMOVE, &[1, 2], 20, "i1T0Sx0");
    c04_tt2 => conc::script(REMOVE, &[2, 1], 20, "T0i1i1");
    c04_b9 => big::then(REMOVE, &[1, 2], 9, 24, "E");
    c04_b10 => big::then(REMOVE, &[1, 2], 10, 28, "E");
    c04_b11 => big::then(REMOVE, &[1, 2], 11, 28, "E");
    c04_t1 => conc::reorder(REMOVE, &[1, 2, 3], "**", false, 0, "");
    c04_t2 => conc::reorder(REMOVE, &[1, 2, 3], "j0Sl1j1", false, 1, "");
    c04_t3 => conc::late(REMOVE, &[1, 2, 3], 20, "j0Sl1j1", "x", "");
    c04_t4 => conc::late(REMOVE, &[1, 2, 3], 20, "k0k0l0k0k0", "x", "");
    c04_t5 => conc::late(REMOVE, &[1, 2, 3], 20, "k0j1l0m1", "f", "");
    c04_t6 => conc::script(REMOVE, &[1, 2], 20, "EEx0E");
    c04_t7 => conc::script(REMOVE, &[1, 2], MAXLEN, "EEf0E");
    c04_b0 => big::then(REMOVE, &[1, 2], 0, 20, "E");
    c04_b1 => big::then(REMOVE, &[1, 2], 1, 20, "E");
    c04_b2 => big::then(REMOVE, &[1, 2], 2, 14, "E");
    c04_b4 => big::then(REMOVE, &[1, 2], 4, 30, "E");
    c04_b5 => big::then(REMOVE, &[1, 2], 5, 30, "E");
    c04_b6 => big::then(REMOVE, &[1, 2], 6, 20, "E");
    c04_b8 => big::then(REMOVE, &[1, 2], 8, 20, "E");
    c04_s0 => big::then(REMOVE, &[1, 2], 0, 6, "EE");
    c04_s1 => big::then(REMOVE, &[1, 2], 1, 6, "EE");
    c04_s2 => big::then(REMOVE, &[1, 2], 2, 5, "EE");
    c04_s5 => big::then(REMOVE, &[1, 2], 5, 10, "EE");
    c04_w1 => big::within(REMOVE, &[1, 2], 1, 20, "e0e1", 6, 8);
    c04_w5 => big::within(REMOVE, &[1, 2], 5, 30, "e0e1", 6, 8);
    c04_w3 => big::within(REMOVE, &[1, 2, 3], 3, 20, "d0i1i2", 6, 9);
    c04_w31 => big::within(REMOVE, &[1, 2, 3], 3, 40, "d0i1i2", 6, 8);
    c04_w8 => big::within(REMOVE, &[1, 2, 3], 1, 20, "d0i1i2", 6, 9);
    c04_we3 => big::within(REMOVE, &[1, 2, 3], 3, 20, "e0e1e2", 6, 9);
    c04_we8 => big::within(REMOVE, &[1, 2, 3], 8, 20, "e0e1e2", 6, 8);
    c04_we5 => big::within(REMOVE, &[1, 2, 3], 5, 30, "e0e1e2", 6, 8);
    c12_steps3 => conc::steps(IDENT, &[1, 2], 3, 0);
    c12_steps4 => conc::steps(IDENT, &[1, 2], 4, 0);
    c12_three3 => conc::steps(IDENT, &[2, 1, 3], 3, 0);
    c12_p1 => conc::script(IDENT, &[1, 2], MAXLEN, "i0SEE");
    c12_p2 => conc::script(IDENT, &[1, 2], MAXLEN, "d0SEE");
    c12_p4 => conc::script(IDENT, &[1, 2], MAXLEN, "d0i1i1");
    c12_p5 => conc::script(IDENT, &[1, 2], MAXLEN, "i0Sd0e1e1");
    c12_p6 => conc::script(IDENT, &[1, 2], MAXLEN, "i0SXi1i0");
    c12_p7 => conc::script(IDENT, &[1, 2], MAXLEN, "i0i1SE");
    c12_p8 => conc::script(IDENT, &[1, 2], MAXLEN, "i0i1SXI");
    c12_p9 => conc::script(IDENT, &[1, 2], MAXLEN, "i0SSi0i1S*");
    c12_pa => conc::script(IDENT, &[1, 2], MAXLEN, "d0SXII");
    c12_pb => conc::script(IDENT, &[1, 2], MAXLEN, "i0i0Si1E");
    c12_q1 => conc::script(IDENT, &[2, 1, 3], MAXLEN, "III");
    c12_q2 => conc::script(IDENT, &[2, 1, 3], MAXLEN, "i0Si1i2i0");
    c12_q3 => conc::script(IDENT, &[2, 1, 3], MAXLEN, "i0SIII");
    c12_q4 => conc::script(IDENT, &[2, 1, 3], MAXLEN, "d0SIII");
    c12_q5 => conc::script(IDENT, &[2, 1, 3], MAXLEN, "i0d1i2");
    c12_q6 => conc::script(IDENT, &[2, 1, 3], MAXLEN, "EEg2I");
    c12_l1 => conc::script(IDENT, &[1, 2], 20, "L0g0i0E");
    c12_l2 => conc::script(IDENT, &[1, 2], 20, "i0L0g0e0e1");
    c12_l3 => conc::script(IDENT, &[1, 2], 20, "L0L1SE");
    c12_r1 => conc::script(IDENT, &[1, 2], MAXLEN, "k0i1Si0i1");
    c12_r2 => conc::script(IDENT, &[2, 1, 3], MAXLEN, "k0g2i1g0i0i2");
    c12_v1 => conc::script(IDENT, &[2, 1], MAXLEN, "i0Si0i1");
    c12_v2 => conc::script(IDENT, &[3, 1, 2], MAXLEN, "i1Se0e2");
    c12_v3 => conc::reorder(IDENT, &[3, 1, 2], "EE", false, 0, "e2");
    c12_y0 => conc::script(IDENT, &[1, 2], 20, "Y0E");
    c12_y2 => conc::script(IDENT, &[1, 2], 20, "Y0Sk0E");
    c12_z1 => conc::script(IDENT, &[1, 2], 4, "Z0d0d0i0");
    c12_z2 => conc::script(IDENT, &[2, 1], 4, "Z0Sd0d1");
    c12_z3 => conc::script(IDENT, &[1, 2], 4, "Z0Sd1d1i0");
    c12_tt0 => conc::script(IDENT, &[1, 2], 20, "i1T0Sx0");
    c12_tt2 => conc::script(IDENT, &[2, 1], 20, "T0i1i1");
    c12_b9 => big::then(IDENT, &[1, 2], 9, 24, "E");
    c12_b10 => big::then(IDENT, &[1, 2], 10, 28, "E");
    c12_b11 => big::then(IDENT, &[1, 2], 11, 28, "E");
    c12_t1 => conc::reorder(IDENT, &[1, 2, 3], "**", false, 0, "");
    c12_t2 => conc::reorder(IDENT, &[1, 2, 3], "j0Sl1j1", false, 1, "");
    c12_t3 => conc::late(IDENT, &[1, 2, 3], 20, "j0Sl1j1", "x", "");
    c12_t4 => conc::late(IDENT, &[1, 2, 3], 20, "k0k0l0k0k0", "x", "");
    c12_t5 => conc::late(IDENT, &[1, 2, 3], 20, "k0j1l0m1", "f", "");
    c12_t6 => conc::script(IDENT, &[1, 2], 20, "EEx0E");
    c12_t7 => conc::script(IDENT, &[1, 2], MAXLEN, "EEf0E");
    c12_b0 => big::then(IDENT, &[1, 2], 0, 20, "E");
    c12_b1 => big::then(IDENT, &[1, 2], 1, 20, "E");
    c12_b2 => big::then(IDENT, &[1, 2], 2, 14, "E");
    c12_b4 => big::then(IDENT, &[1, 2], 4, 30, "E");
    c12_b5 => big::then(IDENT, &[1, 2], 5, 30, "E");
    c12_b6 => big::then(IDENT, &[1, 2], 6, 20, "E");
    c12_b8 => big::then(IDENT, &[1, 2], 8, 20, "E");
    c12_s0 => big::then(IDENT, &[1, 2], 0, 6, "EE");
    c12_s1 => big::then(IDENT, &[1, 2], 1, 6, "EE");
    c12_s2 => big::then(IDENT, &[1, 2], 2, 5, "EE");
    c12_s5 => big::then(IDENT, &[1, 2], 5, 10, "EE");
    c12_w1 => big::within(IDENT, &[1, 2], 1, 20, "e0e1", 6, 8);
    c12_w5 => big::within(IDENT, &[1, 2], 5, 30, "e0e1", 6, 8);
    c12_w3 => big::within(IDENT, &[1, 2, 3], 3, 20, "d0i1i2", 6, 9);
    c12_w31 => big::within(IDENT, &[1, 2, 3], 3, 40, "d0i1i2", 6, 8);
    c12_w8 => big::within(IDENT, &[1, 2, 3], 1, 20, "d0i1i2", 6, 9);
    c12_we3 => big::within(IDENT, &[1, 2, 3], 3, 20, "e0e1e2", 6, 9);
    c12_we8 => big::within(IDENT, &[1, 2, 3], 8, 20, "e0e1e2", 6, 8);
    c12_we5 => big::within(IDENT, &[1, 2, 3], 5, 30, "e0e1e2", 6, 8);
    c05_two => conc::reorder(WAIT|CONV, &[1, 2, 3], "**", false, 0, "");
    c05_three => conc::reorder(WAIT|CONV, &[1, 2], "EEE", false, 0, "");
    c05_any3 => conc::reorder(WAIT|CONV, &[1, 2], "***", false, 0, "");
    c05_three3 => conc::reorder(WAIT|CONV, &[1, 2, 3], "***", false, 0, "");
    c05_chain => conc::reorder(WAIT|CONV, &[1, 2, 3], "j0Sk1j1Sl0", false, 0, "");
    c05_chain2 => conc::reorder(WAIT|CONV, &[1, 2, 3], "k0l0Sl1m1", false, 0, "");
    c05_chain3 => conc::reorder(WAIT|CONV, &[1, 2, 3], "j0Si1Sd0", false, 0, "");
    c05_chain4 => conc::reorder(WAIT|CONV, &[1, 2, 3], "j0k0Sj1l1Sm0", false, 0, "");
    c05_par => conc::reorder(WAIT|CONV, &[1, 2, 3], "j0j1k0k1", false, 0, "");
    c05_par2 => conc::reorder(WAIT|CONV, &[1, 2, 3], "l0l1m0m1", false, 0, "");
    c05_par3 => conc::reorder(WAIT|CONV, &[1, 2, 3], "k0l0k1l1", false, 0, "");
    c05_own => conc::reorder(WAIT|CONV, &[1, 2, 3], "**", true, 0, "");
    c05_four => conc::reorder(WAIT|CONV, &[1, 2, 3, 4], "j0Sl1Sj2", false, 0, "");
    c05_l1 => conc::reorder(WAIT|CONV, &[1, 2, 3], "oL0g0E", false, 0, "");
    c05_v1 => conc::reorder(WAIT|CONV, &[3, 1, 2], "k0j1Sl1E", false, 0, "");
    c05_v2 => conc::reorder(WAIT|CONV, &[2, 1, 3], "j1Sl0k1Sm1j0", false, 0, "");
    c05_w1 => conc::reorder(WAIT|CONV, &[1, 2, 3], "l0m1l1m1", false, 0, "");
    c05_w2 => conc::reorder(WAIT|CONV, &[2, 1, 3], "l0m1l1m1", false, 0, "");
    c05_w3 => conc::reorder(WAIT|CONV, &[1, 2, 3], "m0l1l1l1", false, 0, "");
    c05_big => big::reorder(WAIT|CONV, 5, 30, "e0g1e1");
    c06_two => conc::reorder(CONV|FIT, &[1, 2, 3], "**", false, 2, "");
    c06_own => conc::reorder(CONV|FIT, &[1, 2, 3], "E", true, 2, "");
    c06_one => conc::reorder(CONV|FIT, &[1, 2, 3], "EE", false, 1, "");
    c06_chain => conc::reorder(CONV|FIT, &[1, 2, 3], "j0Sl1j1", false, 2, "");
    c06_chain2 => conc::reorder(CONV|FIT, &[1, 2, 3], "k0l0Sl1", true, 2, "");
    c06_chain3 => conc::reorder(CONV|FIT, &[1, 2, 3], "l0k0Sj1Sl0", false, 1, "");
    c06_old => conc::reorder(CONV|FIT, &[1, 2], "l0l0l0l0", false, 1, "");
    c06_old2 => conc::reorder(CONV|FIT, &[1, 2], "k0k0k0k0", false, 1, "");
    c06_again => conc::again(&[1, 2], "EE");
    c06_again3 => conc::again(&[1, 2], "***");
    c06_after => conc::reorder(CONV|FIT, &[1, 2, 3], "e0g1e1", false, 1, "E");
    c06_big => big::again(5, 30, "e0e1");
    c07_a1 => conc::script(ANCH, &[1, 2], MAXLEN, "a0*r*r");
    c07_a2 => conc::script(ANCH, &[1, 2], MAXLEN, "*Ar*r");
    c07_a3 => conc::script(ANCH, &[1, 2], MAXLEN, "**Ar*");
    c07_a4 => conc::script(ANCH, &[1, 2], MAXLEN, "A**r*");
    c07_a5 => conc::script(ANCH, &[1, 2], MAXLEN, "*A**");
    c07_a6 => conc::script(ANCH, &[1, 2], MAXLEN, "i0Sa0d1d0r");
    c07_a7 => conc::script(ANCH, &[1, 2], MAXLEN, "d0a0i1r");
    c07_a8 => conc::script(ANCH, &[1, 2], MAXLEN, "i0AXr");
    c07_a9 => conc::script(ANCH, &[1, 2], MAXLEN, "Ai0SXi1r");
    c07_t1 => conc::script(ANCH, &[1, 2, 3], MAXLEN, "i0a0g1Er");
    c07_y1 => conc::script(ANCH, &[1, 2], 20, "Y0SAr");
    c07_y2 => conc::script(ANCH, &[1, 2], 20, "Y0SAk0Er");
    c07_z1 => conc::script(ANCH, &[1, 2], 4, "Z0Sd0d0Ar");
    c07_z2 => conc::script(ANCH, &[1, 2], 4, "Z0SAd0d1r");
    c07_tt => conc::script(ANCH, &[2, 1], 20, "T0i1Ar");
    c07_b9 => big::then(ANCH, &[1, 2], 9, 24, "Ar");
    c07_b11 => big::then(ANCH, &[1, 2], 11, 28, "Ar");
    c07_w9 => big::within(ANCH, &[1, 2], 9, 24, "a0e0r", 6, 8);
    c07_b0 => big::then(ANCH, &[1, 2], 0, 20, "Ar");
    c07_b1 => big::then(ANCH, &[1, 2], 1, 20, "Ar");
    c07_b2 => big::then(ANCH, &[1, 2], 2, 14, "Ar");
    c07_b5 => big::then(ANCH, &[1, 2], 5, 30, "Ar");
    c07_b6 => big::then(ANCH, &[1, 2], 6, 20, "Ar");
    c07_b8 => big::then(ANCH, &[1, 2], 8, 20, "Ar");
    c07_w1 => big::within(ANCH, &[1, 2], 1, 20, "a0e0r", 6, 8);
    c07_w5 => big::within(ANCH, &[1, 2], 5, 30, "a0e0r", 6, 8);
    c07_w8 => big::within(ANCH, &[1, 2], 8, 20, "a0e0r", 6, 8);
    c07_s1 => big::then(ANCH, &[1, 2], 1, 6, "Ae0r");
    c07_s5 => big::then(ANCH, &[1, 2], 5, 10, "Ae0r");
    c08_a1 => conc::script(SHARE, &[1, 2], MAXLEN, "a0*r*r");
    c08_a2 => conc::script(SHARE, &[1, 2], MAXLEN, "*Ar*r");
    c08_a3 => conc::script(SHARE, &[1, 2], MAXLEN, "**Ar*");
    c08_a4 => conc::script(SHARE, &[1, 2], MAXLEN, "A**r*");
    c08_a5 => conc::script(SHARE, &[1, 2], MAXLEN, "*A**");
    c08_a6 => conc::script(SHARE, &[1, 2], MAXLEN, "i0Sa0d1d0r");
    c08_a7 => conc::script(SHARE, &[1, 2], MAXLEN, "d0a0i1r");
    c08_a8 => conc::script(SHARE, &[1, 2], MAXLEN, "i0AXr");
    c08_a9 => conc::script(SHARE, &[1, 2], MAXLEN, "Ai0SXi1r");
    c08_t1 => conc::script(SHARE, &[1, 2, 3], MAXLEN, "i0a0g1Er");
    c08_y1 => conc::script(SHARE, &[1, 2], 20, "Y0SAr");
    c08_y2 => conc::script(SHARE, &[1, 2], 20, "Y0SAk0Er");
    c08_z1 => conc::script(SHARE, &[1, 2], 4, "Z0Sd0d0Ar");
    c08_z2 => conc::script(SHARE, &[1, 2], 4, "Z0SAd0d1r");
    c08_tt => conc::script(SHARE, &[2, 1], 20, "T0i1Ar");
    c08_b9 => big::then(SHARE, &[1, 2], 9, 24, "Ar");
    c08_b11 => big::then(SHARE, &[1, 2], 11, 28, "Ar");
    c08_w9 => big::within(SHARE, &[1, 2], 9, 24, "a0e0r", 6, 8);
    c08_b0 => big::then(SHARE, &[1, 2], 0, 20, "Ar");
    c08_b1 => big::then(SHARE, &[1, 2], 1, 20, "Ar");
    c08_b2 => big::then(SHARE, &[1, 2], 2, 14, "Ar");
    c08_b5 => big::then(SHARE, &[1, 2], 5, 30, "Ar");
    c08_b6 => big::then(SHARE, &[1, 2], 6, 20, "Ar");
    c08_b8 => big::then(SHARE, &[1, 2], 8, 20, "Ar");
    c08_w1 => big::within(SHARE, &[1, 2], 1, 20, "a0e0r", 6, 8);
    c08_w5 => big::within(SHARE, &[1, 2], 5, 30, "a0e0r", 6, 8);
    c08_w8 => big::within(SHARE, &[1, 2], 8, 20, "a0e0r", 6, 8);
    c08_s1 => big::then(SHARE, &[1, 2], 1, 6, "Ae0r");
    c08_s5 => big::then(SHARE, &[1, 2], 5, 10, "Ae0r");
    c09_x1 => conc::script(CONV|FIT|ANCH|SHARE, &[1, 2], 20, "*x0*");
    c09_x2 => conc::script(CONV|FIT|ANCH|SHARE, &[1, 2], 20, "EEx0E");
    c09_x3 => conc::script(CONV|FIT|ANCH|SHARE, &[1, 2], 20, "*x0**");
    c09_x4 => conc::script(CONV|FIT|ANCH|SHARE, &[1, 2], 20, "i0x0ASEr");
    c09_x5 => conc::script(CONV|FIT|ANCH|SHARE, &[1, 2], 20, "d0x0e0e2");
    c09_late => conc::late(CONV|FIT|WAIT, &[1, 2, 3], 20, "EE", "x", "");
    c09_late2 => conc::late(CONV|FIT|WAIT, &[1, 2, 3], 20, "**", "x", "");
    c09_late3 => conc::late(CONV|FIT|WAIT, &[1, 2, 3], 20, "j0Sl1j1Sk0", "x", "");
    c09_late4 => conc::late(CONV|FIT|WAIT, &[1, 2, 3], 20, "l0k0Sm1", "x", "e3");
    c09_l1 => conc::script(CONV|FIT, &[1, 2], 20, "L0g0x0e2");
    c09_o1 => conc::script(CONV|FIT, &[3, 1, 2], 20, "j1Sj2Sx0e3");
    c09_o2 => conc::script(CONV|FIT|ANCH|SHARE, &[2, 3, 1], 20, "j1j2Sx0a3r");
    c09_o3 => conc::script(CONV|FIT, &[2, 1], 20, "i1Sx0e2");
    c09_y1 => conc::script(CONV|FIT|INV, &[1, 2], 20, "Y0Sx0e2");
    c09_y2 => conc::script(CONV|FIT|ANCH|SHARE, &[1, 2], 20, "Y0Sx0a2r");
    c09_y3 => conc::script(CONV|FIT|INV, &[1, 2], 20, "Y0x1k0e2");
    c09_tt => conc::script(CONV|FIT|INV, &[2, 1], 20, "T0x0i2");
    c09_l2 => conc::script(CONV|FIT, &[1, 2], 20, "L0g0i0x0e1");
    c09_round => enc::round("*", 20);
    c09_round2 => enc::round("**", 20);
    c09_large => conc::script(CONV|FIT, &[1, 2], 1 << 16, "x0oE");
    c09_large2 => conc::script(CONV|FIT, &[1, 2], 1 << 9, "i0x0");
    c09_b0 => big::then(CONV|FIT|INV, &[1, 2], 0, 20, "oEx0");
    c09_e0 => big::then(CONV|FIT|INV, &[1, 2], 0, 20, "ox0e2");
    c09_a0 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 0, 20, "ox0a2r");
    c09_b1 => big::then(CONV|FIT|INV, &[1, 2], 1, 20, "oEx0");
    c09_e1 => big::then(CONV|FIT|INV, &[1, 2], 1, 20, "ox0e2");
    c09_a1 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 1, 20, "ox0a2r");
    c09_b2 => big::then(CONV|FIT|INV, &[2, 1], 2, 14, "oEx0");
    c09_e2 => big::then(CONV|FIT|INV, &[2, 1], 2, 14, "ox0e2");
    c09_a2 => big::then(CONV|FIT|INV|ANCH|SHARE, &[2, 1], 2, 14, "ox0a2r");
    c09_b5 => big::then(CONV|FIT|INV, &[1, 2], 5, 30, "oEx0");
    c09_e5 => big::then(CONV|FIT|INV, &[1, 2], 5, 30, "ox0e2");
    c09_a5 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 5, 30, "ox0a2r");
    c09_b8 => big::then(CONV|FIT|INV, &[2, 1], 8, 20, "oEx0");
    c09_e8 => big::then(CONV|FIT|INV, &[2, 1], 8, 20, "ox0e2");
    c09_a8 => big::then(CONV|FIT|INV|ANCH|SHARE, &[2, 1], 8, 20, "ox0a2r");
    c10_trunc => enc::truncated(choose(enc::KINDS));
    c10_flip => enc::flipped(choose(enc::KINDS));
    c10_alt2 => enc::altered(choose(enc::KINDS), 2);
    c10_alt9 => enc::altered(choose(enc::KINDS), 9);
    c10_moved => enc::moved(choose(enc::KINDS));
    c10_proto => enc::protocol(choose(enc::KINDS));
    c10_short => enc::short(choose(34));
    c10_cross => enc::crossed(choose(enc::KINDS));
    c11_f1 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "*f0*");
    c11_f2 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "*f0**");
    c11_f3 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "EEf0e2");
    c11_f4 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "i0f0Xi2");
    c11_c1 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "*c0**");
    c11_c2 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "c0EEE");
    c11_c3 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "EEc0E");
    c11_fa => conc::script(CONV|FIT|WAIT|IDENT|INV|ANCH|SHARE, &[1, 2], MAXLEN, "i0A0f0Er");
    c11_ff => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], MAXLEN, "f0f2EE");
    c11_latef => conc::late(CONV|FIT|WAIT|IDENT|INV, &[1, 2, 3], MAXLEN, "**", "f", "");
    c11_latec => conc::late(CONV|FIT|WAIT|IDENT|INV, &[1, 2, 3], MAXLEN, "**", "c", "");
    c11_latef2 => conc::late(CONV|FIT|WAIT|IDENT|INV, &[1, 2, 3], MAXLEN, "j0Sl1j1Sk0", "f", "e3");
    c11_latec2 => conc::late(CONV|FIT|WAIT|IDENT|INV, &[1, 2, 3], MAXLEN, "j0Sl1j1Sk0", "c", "e2");
    c11_v1 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[2, 1], MAXLEN, "i1Sf0e0e2");
    c11_v2 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[2, 1], MAXLEN, "d0f0e1Se2");
    c11_y1 => conc::script(CONV|FIT|WAIT|IDENT|INV, &[1, 2], 20, "Y0Sf0e2");
    c11_y2 => conc::script(CONV|FIT|WAIT|IDENT|INV|ANCH|SHARE, &[1, 2], 20, "Y0Sc0k0a0r");
    c11_tt => conc::script(CONV|FIT|WAIT|IDENT|INV, &[2, 1], 20, "T0f0i2e1");
    c11_b1 => big::then(CONV|FIT|INV, &[1, 2], 1, 4, "Ef0e2");
    c11_d1 => big::then(CONV|FIT|INV, &[1, 2], 1, 20, "f0e2");
    c11_b5 => big::then(CONV|FIT|INV, &[1, 2], 5, 8, "Ef0e2");
    c11_d5 => big::then(CONV|FIT|INV, &[1, 2], 5, 30, "f0e2");
    c13_ins => args::insert("*");
    c13_ins0 => args::insert("");
    c13_d0 => args::delete("", 0);
    c13_d1 => args::delete("", 1);
    c13_d2 => args::delete("", 2);
    c13_d3 => args::delete("", 3);
    c13_d4 => args::delete("", 4);
    c13_d5 => args::delete("", 5);
    c13_d6 => args::delete("", 6);
    c13_d7 => args::delete("", 7);
    c13_d8 => args::delete("", 8);
    c13_d9 => args::delete("", 9);
    c13_d10 => args::delete("", 10);
    c13_dx => args::delete("*", 9);
    c13_dy => args::delete("*", 10);
    c13_dz => args::delete("*", 5);
    c13_anchor => args::anchor("*");
    c13_new => args::new();
    c13_fork => args::fork();
    c13_decode => args::decode();
    c14_steps2 => wire::steps(&[1, 2], 20, 2);
    c14_steps3 => wire::steps(&[1, 2], 20, 3);
    c14_three => conc::script(WIRE|CONV, &[2, 1, 3], 20, "IEg2I");
    c14_p8 => conc::script(WIRE|CONV, &[1, 2], 20, "i0i1SX");
    c14_pa => conc::script(WIRE|CONV, &[1, 2], 20, "d0SXI");
    c14_l0 => wire::large(0);
    c14_l1 => wire::large(1);
    c14_l2 => wire::large(2);
    c14_l3 => wire::large(3);
    c14_degenerate => wire::degenerate();
    c14_encoded => wire::encoded("*");
    c14_anchors => wire::anchors("*AA");
    c14_values => wire::values();
    c14_b1 => big::then(WIRE|CONV|FIT, &[1, 2], 1, 20, "E");
    c14_b5 => big::then(WIRE|CONV|FIT, &[1, 2], 5, 30, "E");
    c15_i1 => wire::malformed(false, 1, true, 0, false);
    c15_i2 => wire::malformed(false, 2, true, 0, false);
    c15_i3 => wire::malformed(false, 3, false, choose(2), false);
    c15_i5 => wire::malformed(false, 5, false, choose(2), false);
    c15_i10 => wire::malformed(false, 10, false, choose(2), false);
    c15_gi6 => wire::garbage(false, 6, 0);
    c15_gi9 => wire::garbage(false, 9, 0);
    c15_gi12 => wire::garbage(false, 12, 0);
    c15_gi20 => wire::garbage(false, 20, 0);
    c15_hi => wire::garbage(false, 2, 4);
    c15_vi => wire::valued(false);
    c15_ai => wire::garbage(false, 4, choose(4));
    c15_d1 => wire::malformed(true, 1, true, 0, false);
    c15_d2 => wire::malformed(true, 2, true, 0, false);
    c15_d3 => wire::malformed(true, 3, false, choose(2), false);
    c15_d5 => wire::malformed(true, 5, false, choose(2), false);
    c15_d10 => wire::malformed(true, 10, false, choose(2), false);
    c15_gd6 => wire::garbage(true, 6, 0);
    c15_gd9 => wire::garbage(true, 9, 0);
    c15_gd12 => wire::garbage(true, 12, 0);
    c15_gd20 => wire::garbage(true, 20, 0);
    c15_hd => wire::garbage(true, 2, 4);
    c15_vd => wire::valued(true);
    c15_ad => wire::garbage(true, 4, choose(4));
    c16_b0_20 => big::then(CONV|FIT|INV, &[1, 2], 0, 20, "E");
    c16_b0_33 => big::then(CONV|FIT|INV, &[1, 2], 0, 33, "E");
    c16_b1_15 => big::then(CONV|FIT|INV, &[1, 2], 1, 15, "E");
    c16_b1_20 => big::then(CONV|FIT|INV, &[1, 2], 1, 20, "E");
    c16_b1_40 => big::then(CONV|FIT|INV, &[1, 2], 1, 40, "E");
    c16_b2_14 => big::then(CONV|FIT|INV, &[1, 2], 2, 14, "E");
    c16_b2_30 => big::then(CONV|FIT|INV, &[1, 2], 2, 30, "E");
    c16_b3_30 => big::then(CONV|FIT|INV, &[1, 2], 3, 30, "E");
    c16_b3_33 => big::then(CONV|FIT|INV, &[1, 2], 3, 33, "E");
    c16_b4_31 => big::then(CONV|FIT|INV, &[1, 2], 4, 31, "E");
    c16_b5_30 => big::then(CONV|FIT|INV, &[1, 2], 5, 30, "E");
    c16_b5_45 => big::then(CONV|FIT|INV, &[1, 2], 5, 45, "E");
    c16_b6_20 => big::then(CONV|FIT|INV, &[1, 2], 6, 20, "E");
    c16_b7_20 => big::then(CONV|FIT|INV, &[1, 2], 7, 20, "E");
    c16_b8_20 => big::then(CONV|FIT|INV, &[1, 2], 8, 20, "E");
    c16_b8_40 => big::then(CONV|FIT|INV, &[1, 2], 8, 40, "E");
    c16_a1_20 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 1, 20, "Ar");
    c16_w1_20 => big::within(CONV|FIT|INV, &[1, 2], 1, 20, "e0e1", 6, 8);
    c16_a5_30 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 5, 30, "Ar");
    c16_w5_30 => big::within(CONV|FIT|INV, &[1, 2], 5, 30, "e0e1", 6, 8);
    c16_we8 => big::within(CONV|FIT|LAND|INV, &[1, 2, 3], 8, 20, "e0e1e2", 6, 8);
    c16_we5 => big::within(CONV|FIT|LAND|INV, &[1, 2, 3], 5, 30, "e0e1e2", 6, 8);
    c16_we3 => big::within(CONV|FIT|LAND|INV, &[1, 2, 3], 3, 20, "e0e1e2", 6, 8);
    c16_w3 => big::within(CONV|FIT|LAND|INV, &[1, 2, 3], 3, 40, "d0i1i2", 6, 8);
    c16_a8_20 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 8, 20, "Ar");
    c16_w8_20 => big::within(CONV|FIT|INV, &[1, 2], 8, 20, "e0e1", 6, 8);
    c16_a6_20 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 6, 20, "Ar");
    c16_w6_20 => big::within(CONV|FIT|INV, &[1, 2], 6, 20, "e0e1", 6, 8);
    c16_a2_14 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 2, 14, "Ar");
    c16_w2_14 => big::within(CONV|FIT|INV, &[1, 2], 2, 14, "e0e1", 6, 8);
    c16_y0 => conc::script(CONV|FIT|LAND|INV, &[1, 2], 20, "Y0E");
    c16_y1 => conc::script(CONV|FIT|LAND|INV|ANCH|SHARE, &[1, 2], 20, "Y0SAr");
    c16_y2 => conc::script(CONV|FIT|LAND|INV, &[1, 2], 20, "Y0Sk0E");
    c16_z1 => conc::script(CONV|FIT|LAND|INV, &[1, 2], 4, "Z0d0d0i0");
    c16_z2 => conc::script(CONV|FIT|LAND|INV, &[2, 1], 4, "Z0Sd0d1");
    c16_z3 => conc::script(CONV|FIT|LAND|INV, &[1, 2], 4, "Z0Sd1d1i0");
    c16_tt0 => conc::script(CONV|FIT|LAND|INV, &[1, 2], 20, "i1T0Sx0");
    c16_tt1 => conc::script(CONV|FIT|LAND|INV, &[1, 2, 3], 20, "T1g2i0SE");
    c16_tt2 => conc::script(CONV|FIT|LAND|INV, &[2, 1], 20, "T0i1i1");
    c16_b9_9 => big::then(CONV|FIT|INV, &[1, 2], 9, 9, "E");
    c16_b9_24 => big::then(CONV|FIT|INV, &[1, 2], 9, 24, "E");
    c16_b10_28 => big::then(CONV|FIT|INV, &[1, 2], 10, 28, "E");
    c16_b10_60 => big::then(CONV|FIT|INV, &[1, 2, 3], 10, 60, "E");
    c16_b11_28 => big::then(CONV|FIT|INV, &[1, 2], 11, 28, "E");
    c16_b11_60 => big::then(CONV|FIT|INV, &[2, 1], 11, 60, "E");
    c16_h0 => big::then(CONV|FIT|INV, &[1, 2], 0, 350, "i0");
    c16_hd0 => big::within(CONV|FIT|INV, &[1, 2], 0, 350, "d0", 7, 8);
    c16_h1 => big::then(CONV|FIT|INV, &[1, 2], 1, 350, "i0");
    c16_hd1 => big::within(CONV|FIT|INV, &[1, 2], 1, 350, "d0", 7, 8);
    c16_h5 => big::then(CONV|FIT|INV, &[1, 2], 5, 600, "i0");
    c16_hd5 => big::within(CONV|FIT|INV, &[1, 2], 5, 600, "d0", 7, 8);
    c16_h3 => big::then(CONV|FIT|INV, &[1, 2], 3, 700, "i0");
    c16_hd3 => big::within(CONV|FIT|INV, &[1, 2], 3, 700, "d0", 7, 8);
    c16_h4 => big::then(CONV|FIT|INV, &[1, 2], 4, 700, "i0");
    c16_hd4 => big::within(CONV|FIT|INV, &[1, 2], 4, 700, "d0", 7, 8);
    c16_h7 => big::then(CONV|FIT|INV, &[1, 2], 7, 180, "i0");
    c16_hd7 => big::within(CONV|FIT|INV, &[1, 2], 7, 180, "d0", 7, 8);
    c16_h2 => big::then(CONV|FIT|INV, &[1, 2], 2, 260, "i0");
    c16_hd2 => big::within(CONV|FIT|INV, &[1, 2], 2, 260, "d0", 7, 8);
    c16_h8 => big::then(CONV|FIT|INV, &[1, 2], 8, 350, "i0");
    c16_hd8 => big::within(CONV|FIT|INV, &[1, 2], 8, 350, "d0", 7, 8);
    c16_steps3 => conc::steps(CONV|FIT|INV, &[1, 2], 3, 0);
    c16_steps4 => conc::steps(CONV|FIT|INV, &[1, 2], 4, 0);
    c16_s0_4 => big::then(CONV|FIT|INV, &[1, 2], 0, 4, "EE");
    c16_s0_6 => big::then(CONV|FIT|INV, &[1, 2], 0, 6, "EE");
    c16_s1_4 => big::then(CONV|FIT|INV, &[1, 2], 1, 4, "EE");
    c16_s1_6 => big::then(CONV|FIT|INV, &[1, 2], 1, 6, "EE");
    c16_s2_5 => big::then(CONV|FIT|INV, &[1, 2], 2, 5, "EE");
    c16_s5_6 => big::then(CONV|FIT|INV, &[1, 2], 5, 6, "EE");
    c16_s5_10 => big::then(CONV|FIT|INV, &[1, 2], 5, 10, "EE");
    c16_s6_6 => big::then(CONV|FIT|INV, &[1, 2], 6, 6, "EE");
    c16_s8_6 => big::then(CONV|FIT|INV, &[1, 2], 8, 6, "EE");
    c16_t0 => big::then(CONV|FIT|INV, &[1, 2], 0, 30, "E");
    c16_ta0 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 0, 30, "Ar");
    c16_t1 => big::then(CONV|FIT|INV, &[1, 2], 1, 30, "E");
    c16_ta1 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 1, 30, "Ar");
    c16_t2 => big::then(CONV|FIT|INV, &[1, 2], 2, 24, "E");
    c16_ta2 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 2, 24, "Ar");
    c16_t5 => big::then(CONV|FIT|INV, &[1, 2], 5, 40, "E");
    c16_ta5 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 5, 40, "Ar");
    c16_t6 => big::then(CONV|FIT|INV, &[1, 2], 6, 30, "E");
    c16_ta6 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 6, 30, "Ar");
    c16_t8 => big::then(CONV|FIT|INV, &[1, 2], 8, 30, "E");
    c16_ta8 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 8, 30, "Ar");
    c16_t3 => big::then(CONV|FIT|INV, &[1, 2], 3, 40, "E");
    c16_ta3 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 3, 40, "Ar");
    c16_t4 => big::then(CONV|FIT|INV, &[1, 2], 4, 40, "E");
    c16_ta4 => big::then(CONV|FIT|INV|ANCH|SHARE, &[1, 2], 4, 40, "Ar");
    c17_s1 => life::script(&[1, 2], MAXLEN, "***");
    c17_s2 => life::script(&[1, 2], MAXLEN, "i0i1SX");
    c17_s3 => life::script(&[1, 2], MAXLEN, "EEf0e2");
    c17_s4 => life::script(&[1, 2], MAXLEN, "i0A0c0X");
    c17_y1 => life::script(&[1, 2], 20, "Y0SE");
    c17_y2 => life::script(&[1, 2], 20, "Y0Sf0e2");
    c17_tt => life::script(&[2, 1], 20, "T0i1");
    c17_partial => life::partial("j0Sl1", true);
    c17_partial2 => life::partial("k0j0Sm1", false);
    c17_partial3 => life::partial("j0Sl1j1l0", false);
    c17_partial4 => life::partial("EE", true);
    c17_mixed => life::mixed("EA");
    c17_mixed2 => life::mixed("*EA");
    c17_b0 => life::big(&[1, 2], 0, 20, "E");
    c17_ba0 => life::big(&[1, 2], 0, 20, "Ar");
    c17_b1 => life::big(&[1, 2], 1, 20, "E");
    c17_ba1 => life::big(&[1, 2], 1, 20, "Ar");
    c17_b2 => life::big(&[1, 2], 2, 14, "E");
    c17_ba2 => life::big(&[1, 2], 2, 14, "Ar");
    c17_b5 => life::big(&[1, 2], 5, 30, "E");
    c17_ba5 => life::big(&[1, 2], 5, 30, "Ar");
    c17_b8 => life::big(&[1, 2], 8, 20, "E");
    c17_ba8 => life::big(&[1, 2], 8, 20, "Ar");
    c17_t0 => life::big(&[1, 2], 0, 5, "EE");
    c17_t1 => life::big(&[1, 2], 1, 4, "EE");
    c17_t2 => life::big(&[1, 2], 2, 5, "EE");
    c17_t5 => life::big(&[1, 2], 5, 6, "EE");
    c17_t8 => life::big(&[1, 2], 8, 6, "EE");
    c17_b9 => life::big(&[1, 2], 9, 24, "E");
    c17_b11 => life::big(&[1, 2], 11, 28, "E");
    c18_cut => enc::cut(choose(enc::KINDS));
    c18_chg0 => enc::changed(0);
    c18_wid0 => enc::widened(0, 10);
    c18_val0 => enc::valued(0);
    c18_chg1 => enc::changed(1);
    c18_wid1 => enc::widened(1, 10);
    c18_val1 => enc::valued(1);
    c18_chg2 => enc::changed(2);
    c18_wid2 => enc::widened(2, 10);
    c18_val2 => enc::valued(2);
    c18_chg3 => enc::changed(3);
    c18_wid3 => enc::widened(3, 10);
    c18_val3 => enc::valued(3);
    c18_chg4 => enc::changed(4);
    c18_wid4 => enc::widened(4, 10);
    c18_val4 => enc::valued(4);
    c18_rand2 => enc::random(2);
    c18_rand4 => enc::random(4);
    c18_rand6 => enc::random(6);
    c18_rand8 => enc::random(8);
    c18_rand10 => enc::random(10);
}
