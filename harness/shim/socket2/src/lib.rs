//! A virtual multicast network in place of `socket2`.  Datagrams stay in the network until the
//! controller delivers (possibly twice, in any order) or loses them.
use std::collections::VecDeque;
use std::io;
use std::mem::MaybeUninit;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
use std::sync::Mutex;
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Domain(i32);
impl Domain {
    pub const IPV4: Domain = Domain(2);
    pub const IPV6: Domain = Domain(10);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Type(i32);
impl Type {
    pub const DGRAM: Type = Type(2);
    pub const STREAM: Type = Type(1);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Protocol(i32);
impl Protocol {
    pub const UDP: Protocol = Protocol(17);
    pub const TCP: Protocol = Protocol(6);
}
#[derive(Debug, Clone)]
pub struct SockAddr(SocketAddr);
impl From<SocketAddr> for SockAddr {
    fn from(a: SocketAddr) -> Self {
        SockAddr(a)
    }
}
impl From<SocketAddrV4> for SockAddr {
    fn from(a: SocketAddrV4) -> Self {
        SockAddr(a.into())
    }
}
impl SockAddr {
    pub fn as_socket(&self) -> Option<SocketAddr> {
        Some(self.0)
    }
    pub fn as_socket_ipv4(&self) -> Option<SocketAddrV4> {
        match self.0 {
            SocketAddr::V4(a) => Some(a),
            _ => None,
        }
    }
    pub fn as_socket_ipv6(&self) -> Option<SocketAddrV6> {
        None
    }
}
pub struct Sock {
    pub id: u64,
    pub bound: Option<SocketAddr>,
    pub groups: Vec<Ipv4Addr>,
    pub inbox: VecDeque<(Vec<u8>, SocketAddr, u64)>,
    pub adopted: bool,
}
#[derive(Clone, Debug)]
pub struct Dgram {
    pub id: u64,
    pub from: usize, // sending thread (1-based), 0 = injected
    pub to: SocketAddr,
    pub src: SocketAddr,
    pub bytes: Vec<u8>,
}
#[derive(Default)]
pub struct Net {
    pub socks: Vec<Sock>,
    pub sent: Vec<Dgram>,
    pub closed: bool,
    pub fail_send: usize,
}
static NET: Mutex<Option<Net>> = Mutex::new(None);
pub fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    f(NET.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Net::default))
}
pub fn reset() {
    net(|n| *n = Net::default())
}
/// deliver a datagram to one socket
pub fn deliver(sock: u64, d: &Dgram) {
    net(|n| {
        if let Some(s) = n.socks.iter_mut().find(|s| s.id == sock) {
            s.inbox.push_back((d.bytes.clone(), d.src, d.id))
        }
    });
    vrt::wake(sock);
}
/// the sockets a datagram would be delivered to
pub fn receivers(d: &Dgram) -> Vec<u64> {
    net(|n| {
        n.socks
            .iter()
            .filter(|s| {
                s.bound.map(|b| b.port() == d.to.port()).unwrap_or(false)
                    && matches!(d.to, SocketAddr::V4(a) if s.groups.contains(a.ip()))
            })
            .map(|s| s.id)
            .collect()
    })
}
pub struct Socket {
    id: u64,
    fd: std::net::UdpSocket,
}
impl Socket {
    pub fn new(_d: Domain, _t: Type, _p: Option<Protocol>) -> io::Result<Socket> {
        let id = vrt::fresh_id();
        net(|n| n.socks.push(Sock { id, bound: None, groups: vec![], inbox: Default::default(), adopted: false }));
        Ok(Socket { id, fd: std::net::UdpSocket::bind("127.0.0.1:0")? })
    }
    pub fn id(&self) -> u64 {
        self.id
    }
    fn with(&self, f: impl FnOnce(&mut Sock)) {
        net(|n| {
            if let Some(s) = n.socks.iter_mut().find(|s| s.id == self.id) {
                f(s)
            }
        })
    }
    pub fn bind(&self, a: &SockAddr) -> io::Result<()> {
        self.with(|s| s.bound = Some(a.0));
        Ok(())
    }
    pub fn join_multicast_v4(&self, g: &Ipv4Addr, _i: &Ipv4Addr) -> io::Result<()> {
        self.with(|s| s.groups.push(*g));
        Ok(())
    }
    pub fn set_multicast_ttl_v4(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_multicast_if_v4(&self, _i: &Ipv4Addr) -> io::Result<()> {
        Ok(())
    }
    pub fn set_multicast_loop_v4(&self, _l: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuse_address(&self, _r: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuse_port(&self, _r: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nonblocking(&self, _r: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_read_timeout(&self, _r: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn send_to(&self, b: &[u8], a: &SockAddr) -> io::Result<usize> {
        vrt::point("send");
        let from = vrt::me().map(|t| t + 1).unwrap_or(0);
        let id = net(|n| {
            let id = n.sent.len() as u64 + 1;
            n.sent.push(Dgram {
                id,
                from,
                to: a.0,
                src: SocketAddr::from(([127, 0, 0, 1], 40000 + self.id as u16)),
                bytes: b.to_vec(),
            });
            id
        });
        vrt::log(format!("{{\"e\":\"send\",\"t\":{from},\"m\":{id}}}"));
        if net(|n| {
            let f = n.fail_send > 0;
            n.fail_send = n.fail_send.saturating_sub(1);
            f
        }) {
            return Err(io::Error::from_raw_os_error(101));
        }
        Ok(b.len())
    }
    pub fn recv_from(&self, buf: &mut [MaybeUninit<u8>]) -> io::Result<(usize, SockAddr)> {
        self.with(|s| s.adopted = true);
        vrt::adopt(&format!("rx:{}", self.id));
        // asking for the next datagram: the previous one has been dealt with
        if let Some(t) = vrt::me() {
            vrt::log(format!("{{\"e\":\"rxidle\",\"t\":{}}}", t + 1));
        }
        loop {
            let got = net(|n| {
                if n.closed {
                    return Some(Err(io::Error::other("network gone")));
                }
                n.socks
                    .iter_mut()
                    .find(|s| s.id == self.id)
                    .and_then(|s| s.inbox.pop_front())
                    .map(Ok)
            });
            match got {
                Some(Ok((b, src, m))) => {
                    if let Some(t) = vrt::me() {
                        vrt::log(format!("{{\"e\":\"recv\",\"t\":{},\"m\":{m}}}", t + 1));
                    }
                    let n = b.len().min(buf.len());
                    for (d, s) in buf.iter_mut().zip(&b) {
                        d.write(*s);
                    }
                    return Ok((n, SockAddr(src)));
                }
                Some(Err(e)) => return Err(e),
                None => vrt::block(self.id, "recv"),
            }
        }
    }
}
impl AsFd for Socket {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
impl AsRawFd for Socket {
    fn as_raw_fd(&self) -> RawFd {
        self.fd.as_raw_fd()
    }
}
