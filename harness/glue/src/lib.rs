//! A thin, instrumented facade: it only exists so that the generic code of ringrtc and mrp is
//! compiled here, with the same preemption points and coverage callbacks as the rest.
pub mod m;
pub mod act;
pub mod locks;
pub mod cm;
