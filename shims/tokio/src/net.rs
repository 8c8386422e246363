//! Nothing here ever touches the network: the harness calls the router directly.
pub use real::net::{lookup_host, TcpSocket, TcpStream, ToSocketAddrs, UdpSocket};
use std::{
    cell::Cell,
    io,
    net::{IpAddr, Ipv4Addr, SocketAddr},
};

thread_local! {
    static TAKEN: Cell<bool> = const { Cell::new(false) };
}
///Another process has the port, from now on and for the rest of the execution.
pub fn taken() {
    TAKEN.with(|t| t.set(true));
}

#[derive(Debug)]
pub struct TcpListener(SocketAddr);
impl TcpListener {
    pub async fn bind(_: impl ToSocketAddrs) -> io::Result<Self> {
        if TAKEN.with(Cell::get) {
            //the other tasks may be on other threads by now
            vsched::point("bind");
            if vsched::choose(2) == 1 {
                //or it takes them a while to get to it
                vsched::idle();
            }
            return Err(io::ErrorKind::AddrInUse.into());
        }
        Ok(Self(SocketAddr::new(IpAddr::V4(Ipv4Addr::UNSPECIFIED), 7687)))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.0)
    }
}
