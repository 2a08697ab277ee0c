#[path = "/verif/harness/common.rs"] mod common;
#[path = "/verif/harness/smoke.rs"] mod smoke;
#[path = "/verif/harness/ngrams.rs"] mod ngrams;
#[path = "/verif/harness/dnmh.rs"] mod dnmh;
#[path = "/verif/harness/rangeh.rs"] mod rangeh;
#[path = "/verif/harness/stops.rs"] mod stops;
#[path = "/verif/harness/tokh.rs"] mod tokh;
#[path = "/verif/harness/c14nh.rs"] mod c14nh;
#[path = "/verif/harness/pat.rs"] mod pat;
#[path = "/verif/harness/walk.rs"] mod walk;
#[path = "/verif/harness/docs.rs"] mod docs;
#[path = "/verif/harness/utilh.rs"] mod utilh;
#[path = "/verif/harness/amstable.rs"] mod amstable;
#[path = "/verif/harness/stdh.rs"] mod stdh;
