//! Parts in real time on several threads: definitions without thread-local state.

use std::time::Duration;

use async_trait::async_trait;
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{Connection, Listener, Protocol, UnfinalizedConnection},
    },
    def::{ConnectionDef, NoMessageHook},
    error::{Error, Result},
};
use rustls::pki_types::{CertificateDer, PrivateKeyDer};

use crate::sim::SimScheme;

/// Connections over protocol `P`, with the harness's signature scheme.
pub struct LiveConn<P>(std::marker::PhantomData<P>);
impl<P> Clone for LiveConn<P> {
    fn clone(&self) -> Self {
        Self(std::marker::PhantomData)
    }
}
impl<P: Protocol> ConnectionDef for LiveConn<P> {
    type Scheme = SimScheme;
    type Protocol = P;
    type MessageHook = NoMessageHook;
}

/// A protocol that cannot connect.
pub struct Refusing;
pub struct Nothing;
#[async_trait]
impl UnfinalizedConnection for Nothing {
    async fn finalize(self, _limiter: Limiter) -> Result<Connection> {
        Err(Error::Connection("refused".into()))
    }
}
#[async_trait]
impl Listener<Nothing> for Nothing {
    async fn accept(&self) -> Result<Nothing> {
        Err(Error::Connection("refused".into()))
    }
}
#[async_trait]
impl Protocol for Refusing {
    type UnfinalizedConnection = Nothing;
    type Listener = Nothing;
    async fn connect(_: &str, _: bool, _: Limiter) -> Result<Connection> {
        Err(Error::Connection("refused".into()))
    }
    async fn bind(_: &str, _: CertificateDer<'static>, _: PrivateKeyDer<'static>) -> Result<Nothing> {
        Err(Error::Connection("refused".into()))
    }
}

/// Runs on several real threads. What is left running is dropped.
pub fn run_live<T>(threads: usize, f: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(threads)
        .enable_all()
        .build()
        .expect("runtime");
    let r = rt.block_on(f);
    rt.shutdown_timeout(Duration::from_millis(500));
    r
}
