//! Simulated TCP and files: the descriptor operations behind the intercepted calls.
use crate::kernel::*;
use crate::klog;
use crate::plan::*;
use std::collections::VecDeque;

#[derive(Default)]
pub struct Conn {
    pub id: usize,
    pub port: u16,
    pub client: usize,
    /// Server-side descriptor (-1: not accepted yet, or closed).
    pub fd: i32,
    pub accepted: bool,
    // client -> server
    pub c2s: VecDeque<u8>,
    pub c2s_fin: bool,
    pub c2s_rst: bool,
    pub c2s_ev: bool,
    pub rx: VecDeque<u8>,
    pub rx_fin: bool,
    pub rst: bool,
    pub so_error: i32,
    /// Bytes the engine has taken off this socket.
    pub read_bytes: usize,
    /// Everything the client wrote, and which message indices end where.
    pub sent: Vec<u8>,
    pub marks: Vec<(usize, u32)>,
    // server -> client
    pub tx: VecDeque<u8>,
    pub tx_fin: bool,
    pub tx_ev: bool,
    pub nospace: bool,
    pub srv_shut: bool,
    pub srv_closed: bool,
    // client side
    pub cl_closed: bool,
    pub cl_reset_sent: bool,
    pub cl_shut: bool,
    pub saw_fin: bool,
    pub saw_rst: bool,
    pub stalled: bool,
    pub ever_stalled: bool,
    pub recv: Vec<u8>,
    /// (stream offset, stamp) pairs: when each prefix of `recv` had arrived.
    pub recv_at: Vec<(usize, u64)>,
    /// Stamp at which each mark had been handed to the network.
    pub mark_step: Vec<u64>,
    pub part_until: u64,
    pub closed_step: Option<u64>,
    pub fd_closed_step: Option<u64>,
    pub open_at_quiesce: bool,
}
/// Client-side receive buffer while the peer is not reading.
const CRX_CAP: usize = 96;

impl Kernel {
    fn delay(&mut self) -> u64 {
        let l = self.plan.net.lat_us.max(1) * 1000;
        let m = [1, 2, 5, 20][self.ch.uniform(4) as usize];
        l * m / 2
    }
    /// How many of n available bytes travel together.
    fn segment(&mut self, n: usize) -> usize {
        if n <= 1 {
            return n;
        }
        match self.plan.net.seg {
            0 => n,
            1 => 1,
            _ => {
                let c = (self.plan.net.chunk.max(1) as usize).min(n);
                let v = self.ch.choose(c as u32 + 1, |r| r.below(c as u64 + 1) as u32) as usize;
                if v == 0 {
                    n
                } else {
                    v
                }
            }
        }
    }
    pub fn kick_c2s(&mut self, c: usize) {
        let cn = &self.w.conns[c];
        if cn.c2s_ev || (cn.c2s.is_empty() && !cn.c2s_fin && !cn.c2s_rst) {
            return;
        }
        let hold = cn.part_until.saturating_sub(self.now);
        let d = self.delay().max(hold);
        self.w.conns[c].c2s_ev = true;
        self.at(d, Ev::C2S(c));
    }
    pub fn kick_s2c(&mut self, c: usize) {
        let cn = &self.w.conns[c];
        if cn.tx_ev || (cn.tx.is_empty() && !cn.tx_fin) {
            return;
        }
        let hold = cn.part_until.saturating_sub(self.now);
        let d = self.delay().max(hold);
        self.w.conns[c].tx_ev = true;
        self.at(d, Ev::S2C(c));
    }
    /// The client's side learns that the connection is dead.
    pub fn reset_to_client(&mut self, c: usize) {
        let cn = &mut self.w.conns[c];
        if !cn.cl_closed && !cn.saw_rst {
            cn.saw_rst = true;
            klog!(self, "conn {} reset by engine", c);
        }
        let cn = &mut self.w.conns[c];
        cn.c2s.clear();
        cn.c2s_fin = false;
        self.poke_client_of(c);
    }
    fn reset_to_server(&mut self, c: usize) {
        let cn = &mut self.w.conns[c];
        if cn.rst {
            return;
        }
        if !cn.cl_reset_sent {
            // everything the peer had sent arrived before its RST
            let rest: Vec<u8> = cn.c2s.drain(..).collect();
            cn.rx.extend(rest);
        } else {
            cn.c2s.clear();
        }
        cn.rst = true;
        cn.so_error = if cn.rx_fin { libc::EPIPE } else { libc::ECONNRESET };
        cn.tx.clear();
        let fd = cn.fd;
        klog!(self, "conn {} RST reaches engine", c);
        self.stats.inc("rst_to_engine");
        if fd >= 0 {
            self.fd_wake(fd);
        }
    }

    pub fn ev_c2s(&mut self, c: usize) {
        self.w.conns[c].c2s_ev = false;
        if self.now < self.w.conns[c].part_until {
            self.kick_c2s(c);
            return;
        }
        if self.w.conns[c].srv_closed {
            // data for a closed socket: answered with RST
            if !self.w.conns[c].c2s.is_empty() {
                self.reset_to_client(c);
            }
            self.w.conns[c].c2s_fin = false;
            self.w.conns[c].c2s_rst = false;
            return;
        }
        let room = (self.plan.net.rx_cap as usize).saturating_sub(self.w.conns[c].rx.len());
        let n = self.w.conns[c].c2s.len().min(room);
        let n = self.segment(n);
        if n > 0 {
            let cn = &mut self.w.conns[c];
            for _ in 0..n {
                let b = cn.c2s.pop_front().unwrap();
                cn.rx.push_back(b);
            }
            let fd = cn.fd;
            self.h(10, n as u64);
            klog!(self, "conn {} {} bytes arrive at engine", c, n);
            if fd >= 0 {
                self.fd_wake(fd);
            }
            self.stats.inc("segments_in");
        }
        let cn = &mut self.w.conns[c];
        if cn.c2s.is_empty() {
            if cn.c2s_rst {
                cn.c2s_rst = false;
                self.reset_to_server(c);
                return;
            }
            if cn.c2s_fin {
                cn.c2s_fin = false;
                cn.rx_fin = true;
                let fd = cn.fd;
                klog!(self, "conn {} FIN arrives at engine", c);
                self.h(11, c as u64);
                if fd >= 0 {
                    self.fd_wake(fd);
                }
            }
        } else if cn.rx.len() < self.plan.net.rx_cap as usize {
            self.kick_c2s(c);
        } else {
            self.stats.inc("rx_window_closed");
        }
    }

    pub fn ev_s2c(&mut self, c: usize) {
        self.w.conns[c].tx_ev = false;
        if self.now < self.w.conns[c].part_until {
            self.kick_s2c(c);
            return;
        }
        if self.w.conns[c].rst {
            return;
        }
        if self.w.conns[c].cl_closed {
            // peer has closed: anything sent is answered with RST
            if !self.w.conns[c].tx.is_empty() {
                self.reset_to_server(c);
            }
            return;
        }
        let cn = &self.w.conns[c];
        let mut n = cn.tx.len();
        if cn.stalled {
            let held = cn.recv.len() - cn.recv_at.last().map_or(0, |x| x.0);
            n = n.min(CRX_CAP.saturating_sub(held));
            if n == 0 && !cn.tx.is_empty() {
                self.stats.inc("peer_window_closed");
                return;
            }
        }
        let n = self.segment(n);
        if n > 0 {
            let step = self.w.stamp();
            let cn = &mut self.w.conns[c];
            for _ in 0..n {
                let b = cn.tx.pop_front().unwrap();
                cn.recv.push(b);
            }
            if !cn.stalled {
                let l = cn.recv.len();
                cn.recv_at.push((l, step));
            }
            klog!(self, "conn {} {} bytes reach peer", c, n);
            self.h(12, n as u64);
            let cn = &mut self.w.conns[c];
            let cap = self.plan.net.tx_cap as usize;
            if cn.nospace && cap - cn.tx.len() >= (cap / 3).max(1) {
                cn.nospace = false;
                let fd = cn.fd;
                if fd >= 0 {
                    self.fd_wake(fd);
                }
            }
            self.poke_client_of(c);
        }
        let cn = &mut self.w.conns[c];
        if cn.tx.is_empty() {
            if cn.tx_fin {
                cn.tx_fin = false;
                cn.saw_fin = true;
                klog!(self, "conn {} FIN reaches peer", c);
                self.poke_client_of(c);
            }
        } else {
            self.kick_s2c(c);
        }
    }

    // ---------------------------------------------------------- reads and writes
    pub fn do_peek(&mut self, fd: i32, b: &mut [u8]) -> Result<usize, i32> {
        let c = match self.fd(fd).map(|f| &f.k) {
            Some(FdK::Stream(c)) => *c,
            _ => return Err(libc::ENOTSOCK),
        };
        let cn = &self.w.conns[c];
        if cn.rx.is_empty() {
            return if cn.rx_fin { Ok(0) } else { Err(libc::EAGAIN) };
        }
        let n = b.len().min(cn.rx.len());
        for (i, x) in cn.rx.iter().take(n).enumerate() {
            b[i] = *x;
        }
        Ok(n)
    }
    pub fn do_read(&mut self, fd: i32, b: &mut [u8]) -> Result<usize, i32> {
        enum A {
            Ev,
            S(usize),
            F,
            E(i32),
        }
        let a = match self.fd(fd).map(|f| &f.k) {
            Some(FdK::Event(_)) => A::Ev,
            Some(FdK::Stream(c)) => A::S(*c),
            Some(FdK::File(_)) => A::F,
            Some(FdK::Pair) => A::E(libc::EAGAIN),
            _ => A::E(libc::EBADF),
        };
        match a {
            A::E(e) => Err(e),
            A::Ev => {
                if let Some(Fd { k: FdK::Event(v), .. }) = self.fd(fd) {
                    if *v == 0 {
                        return Err(libc::EAGAIN);
                    }
                    if b.len() < 8 {
                        return Err(libc::EINVAL);
                    }
                    b[..8].copy_from_slice(&v.to_ne_bytes());
                    *v = 0;
                }
                Ok(8)
            }
            A::F => self.file_read(fd, b),
            A::S(c) => {
                let cn = &mut self.w.conns[c];
                if cn.rx.is_empty() {
                    if cn.so_error != 0 {
                        let e = cn.so_error;
                        cn.so_error = 0;
                        return Err(e);
                    }
                    return if cn.rx_fin || cn.rst { Ok(0) } else { Err(libc::EAGAIN) };
                }
                let n = b.len().min(cn.rx.len());
                for x in b.iter_mut().take(n) {
                    *x = cn.rx.pop_front().unwrap();
                }
                cn.read_bytes += n;
                self.w.progress = self.step;
                self.h(13, n as u64);
                klog!(self, "conn {} engine reads {}", c, n);
                self.w.note_read();
                self.kick_c2s(c);
                self.poke_client_of(c);
                Ok(n)
            }
        }
    }
    fn file_read(&mut self, fd: i32, b: &mut [u8]) -> Result<usize, i32> {
        let (file, pos) = match self.fd(fd).map(|f| &f.k) {
            Some(FdK::File(o)) => (o.file, o.pos),
            _ => return Err(libc::EBADF),
        };
        self.w.progress = self.step;
        let i = self.file_reads[file];
        self.file_reads[file] += 1;
        let mut max = self.plan.files[file].max_read as usize;
        if max == 0 {
            max = usize::MAX;
        }
        match self.plan.files[file].faults.get(i as usize) {
            Some(ReadFault::Short(n)) => {
                max = (*n).max(1) as usize;
                self.stats.inc("file_short_read");
            }
            Some(ReadFault::Eintr) => {
                self.stats.inc("file_eintr");
                return Err(libc::EINTR);
            }
            Some(ReadFault::Eio) => {
                self.stats.inc("file_eio");
                self.w.eio = true;
                return Err(libc::EIO);
            }
            Some(ReadFault::Slow(_)) => {
                self.stats.inc("file_slow");
                return Err(-1);
            }
            None => {}
        }
        let t = &self.plan.files[file].text.0;
        let n = b.len().min(max).min(t.len().saturating_sub(pos));
        b[..n].copy_from_slice(&t[pos..pos + n]);
        if let Some(Fd { k: FdK::File(o), .. }) = self.fd(fd) {
            o.pos += n;
        }
        Ok(n)
    }
    pub fn do_write(&mut self, fd: i32, b: &[u8]) -> Result<usize, i32> {
        let c = match self.fd(fd).map(|f| &mut f.k) {
            Some(FdK::Event(v)) => {
                let mut x = [0u8; 8];
                x.copy_from_slice(&b[..8]);
                *v += u64::from_ne_bytes(x);
                self.fd_wake(fd);
                return Ok(8);
            }
            Some(FdK::Stream(c)) => *c,
            Some(FdK::Pair) => return Ok(b.len()),
            _ => return Err(libc::EBADF),
        };
        let cap = self.plan.net.tx_cap as usize;
        let cn = &mut self.w.conns[c];
        if cn.so_error != 0 {
            let e = cn.so_error;
            cn.so_error = 0;
            return Err(e);
        }
        if cn.rst || cn.srv_shut {
            return Err(libc::EPIPE);
        }
        let n = b.len().min(cap.saturating_sub(cn.tx.len()));
        if n < b.len() {
            cn.nospace = true;
        }
        if n == 0 && !b.is_empty() {
            self.stats.inc("tx_full");
            return Err(libc::EAGAIN);
        }
        if n < b.len() {
            self.stats.inc("short_write");
        }
        let cn = &mut self.w.conns[c];
        cn.tx.extend(&b[..n]);
        self.w.progress = self.step;
        self.h(14, n as u64);
        klog!(self, "conn {} engine writes {} of {}", c, n, b.len());
        self.kick_s2c(c);
        Ok(n)
    }
    pub fn do_close(&mut self, fd: i32) {
        let f = self.fds[(fd - FD_BASE) as usize].take().unwrap();
        for s in self.fds.iter_mut().flatten() {
            if let FdK::Epoll { items, ready } = &mut s.k {
                items.retain(|i| i.fd != fd);
                ready.retain(|r| *r != fd);
            }
        }
        match f.k {
            FdK::Stream(c) => {
                let step = self.step;
                let cn = &mut self.w.conns[c];
                cn.srv_closed = true;
                cn.fd = -1;
                cn.fd_closed_step = Some(step);
                let unread = !cn.rx.is_empty();
                klog!(self, "conn {} engine closes socket{}", c, if unread { " (unread data: RST)" } else { "" });
                self.h(15, c as u64);
                if unread {
                    self.w.conns[c].tx.clear();
                    self.reset_to_client(c);
                } else if !self.w.conns[c].srv_shut {
                    self.w.conns[c].srv_shut = true;
                    self.w.conns[c].tx_fin = true;
                    self.kick_s2c(c);
                }
                if !self.w.conns[c].c2s.is_empty() {
                    self.kick_c2s(c);
                }
            }
            FdK::Listener(p) => {
                klog!(self, "listener on {} closed", p);
                self.h(16, p as u64);
                self.w.listener_closes += 1;
                if let Some(q) = self.backlogs.remove(&p) {
                    for c in q {
                        self.w.conns[c].srv_closed = true;
                        self.w.backlog_resets += 1;
                        self.reset_to_client(c);
                    }
                }
            }
            _ => {}
        }
    }
    pub fn do_shutdown(&mut self, fd: i32, how: i32) -> Result<usize, i32> {
        let c = match self.fd(fd).map(|f| &f.k) {
            Some(FdK::Stream(c)) => *c,
            _ => return Err(libc::ENOTCONN),
        };
        if self.w.conns[c].rst {
            return Err(libc::ENOTCONN);
        }
        if (how == libc::SHUT_WR || how == libc::SHUT_RDWR) && !self.w.conns[c].srv_shut {
            klog!(self, "conn {} engine shuts down writing", c);
            self.w.conns[c].srv_shut = true;
            self.w.conns[c].tx_fin = true;
            self.kick_s2c(c);
        }
        if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
            self.w.conns[c].rx_fin = true;
        }
        self.fd_wake(fd);
        Ok(0)
    }

    // ---------------------------------------------------------- listening
    pub fn do_bind(&mut self, fd: i32, port: u16) -> Result<usize, i32> {
        let n = self.bind_calls.entry(port).or_insert(0);
        *n += 1;
        let n = *n;
        let fail = self.plan.faults.bind_fail.iter().find(|f| f.0 == port).map_or(0, |f| f.1);
        if n <= fail && !(fail == u32::MAX && self.fair) {
            self.stats.inc("bind_eaddrinuse");
            klog!(self, "bind {} fails (injected)", port);
            return Err(libc::EADDRINUSE);
        }
        if self.backlogs.contains_key(&port) {
            return Err(libc::EADDRINUSE);
        }
        let in_use = self.w.conns.iter().any(|c| c.port == port && c.accepted);
        let mut port = port;
        if let Some(Fd { k: FdK::Sock { port: p, reuse }, .. }) = self.fd(fd) {
            if in_use && !*reuse {
                return Err(libc::EADDRINUSE);
            }
            if port == 0 {
                port = 30000;
            }
            *p = port;
            Ok(0)
        } else {
            Err(libc::EINVAL)
        }
    }
    pub fn do_listen(&mut self, fd: i32) -> Result<usize, i32> {
        let port = match self.fd(fd).map(|f| &f.k) {
            Some(FdK::Sock { port, .. }) => *port,
            _ => return Err(libc::EINVAL),
        };
        if self.backlogs.contains_key(&port) {
            return Err(libc::EADDRINUSE);
        }
        self.fd(fd).unwrap().k = FdK::Listener(port);
        self.backlogs.insert(port, VecDeque::new());
        self.h(17, port as u64);
        klog!(self, "port {} opens", port);
        self.port_opened(port);
        self.w.progress = self.step;
        Ok(0)
    }
    pub fn do_accept(&mut self, fd: i32) -> Result<(i32, u16), i32> {
        let port = match self.fd(fd).map(|f| &f.k) {
            Some(FdK::Listener(p)) => *p,
            _ => return Err(libc::EINVAL),
        };
        if self.backlogs.get(&port).map_or(true, |b| b.is_empty()) {
            return Err(libc::EAGAIN);
        }
        self.accept_calls += 1;
        let n = self.accept_calls;
        if let Some(f) = self.plan.faults.accept_fail.iter().find(|f| f.0 == n || (f.0 == 0 && !self.fair)) {
            let e = f.1;
            self.stats.inc(match e {
                libc::ECONNABORTED => "accept_econnaborted",
                libc::EMFILE => "accept_emfile",
                _ => "accept_enobufs",
            });
            klog!(self, "accept fails (injected errno {})", e);
            if e == libc::ECONNABORTED {
                let c = self.backlogs.get_mut(&port).unwrap().pop_front().unwrap();
                self.w.conns[c].srv_closed = true;
                self.w.conns[c].cl_closed = true;
                self.w.aborted_by_network(c);
                self.poke_client_of(c);
            }
            return Err(e);
        }
        let c = self.backlogs.get_mut(&port).unwrap().pop_front().unwrap();
        let nfd = self.alloc_fd(FdK::Stream(c), libc::O_NONBLOCK);
        self.w.conns[c].fd = nfd;
        self.w.conns[c].accepted = true;
        self.w.progress = self.step;
        self.h(18, c as u64);
        self.stats.inc("accepts");
        klog!(self, "conn {} accepted on port {}", c, port);
        Ok((nfd, 40000u16.wrapping_add(c as u16)))
    }
    /// A SYN from a client: None if refused.
    pub fn connect(&mut self, client: usize, port: u16) -> Option<usize> {
        if !self.backlogs.contains_key(&port) {
            return None;
        }
        let id = self.w.conns.len();
        self.w.conns.push(Conn { id, port, client, fd: -1, ..Default::default() });
        self.backlogs.get_mut(&port).unwrap().push_back(id);
        let l = (0..self.fds.len()).find(|&i| {
            matches!(&self.fds[i], Some(Fd { k: FdK::Listener(p), .. }) if *p == port)
        });
        if let Some(i) = l {
            self.fd_wake(FD_BASE + i as i32);
        }
        self.h(19, port as u64);
        klog!(self, "conn {} established by client {} to port {}", id, client, port);
        Some(id)
    }
    pub fn local_port(&mut self, fd: i32) -> u16 {
        match self.fd(fd).map(|f| &f.k) {
            Some(FdK::Sock { port, .. }) | Some(FdK::Listener(port)) => *port,
            Some(FdK::Stream(c)) => {
                let c = *c;
                self.w.conns[c].port
            }
            _ => 0,
        }
    }
    pub fn take_so_error(&mut self, fd: i32) -> i32 {
        match self.fd(fd).map(|f| &f.k) {
            Some(FdK::Stream(c)) => {
                let c = *c;
                std::mem::take(&mut self.w.conns[c].so_error)
            }
            _ => 0,
        }
    }

    // ---------------------------------------------------------- epoll
    fn events_of(&self, fd: i32) -> u32 {
        const IN: u32 = libc::EPOLLIN as u32;
        const OUT: u32 = libc::EPOLLOUT as u32;
        let f = match self.fds.get((fd - FD_BASE) as usize) {
            Some(Some(f)) => f,
            _ => return 0,
        };
        match &f.k {
            FdK::Listener(p) => {
                if self.backlogs.get(p).map_or(false, |b| !b.is_empty()) {
                    IN
                } else {
                    0
                }
            }
            FdK::Event(v) => {
                if *v > 0 {
                    IN | OUT
                } else {
                    OUT
                }
            }
            FdK::Pair => OUT,
            FdK::Stream(c) => {
                let cn = &self.w.conns[*c];
                let mut e = 0;
                if !cn.rx.is_empty() || cn.rx_fin || cn.rst {
                    e |= IN;
                }
                if cn.rx_fin || cn.rst {
                    e |= libc::EPOLLRDHUP as u32;
                }
                if cn.tx.len() < self.plan.net.tx_cap as usize || cn.rst || cn.srv_shut {
                    e |= OUT;
                }
                if cn.rst || (cn.rx_fin && cn.srv_shut) {
                    e |= libc::EPOLLHUP as u32;
                }
                if cn.so_error != 0 {
                    e |= libc::EPOLLERR as u32;
                }
                e
            }
            _ => 0,
        }
    }
    pub fn do_epoll_ctl(&mut self, ep: i32, op: i32, fd: i32, ev: (u32, u64)) -> Result<usize, i32> {
        let now = self.events_of(fd);
        let mask = ev.0 | libc::EPOLLHUP as u32 | libc::EPOLLERR as u32;
        let mut wake = false;
        if let Some(Fd { k: FdK::Epoll { items, ready }, .. }) = self.fd(ep) {
            let i = items.iter().position(|i| i.fd == fd);
            match op {
                libc::EPOLL_CTL_ADD => {
                    if i.is_some() {
                        return Err(libc::EEXIST);
                    }
                    items.push(EpollItem { fd, events: ev.0, data: ev.1 });
                    wake = now & mask != 0;
                }
                libc::EPOLL_CTL_MOD => {
                    let i = i.ok_or(libc::ENOENT)?;
                    items[i] = EpollItem { fd, events: ev.0, data: ev.1 };
                    wake = now & mask != 0;
                }
                _ => {
                    let i = i.ok_or(libc::ENOENT)?;
                    items.remove(i);
                    ready.retain(|r| *r != fd);
                }
            }
        }
        if wake {
            self.fd_wake(fd);
        }
        Ok(0)
    }
    /// Drain the ready list in an order the chooser decides.
    pub fn collect_epoll(&mut self, ep: i32, max: usize) -> Vec<(u32, u64)> {
        let mut list = match self.fd(ep) {
            Some(Fd { k: FdK::Epoll { ready, .. }, .. }) => std::mem::take(ready),
            _ => return vec![],
        };
        let mut out = vec![];
        let mut keep = vec![];
        while !list.is_empty() {
            let i = self.ch.uniform(list.len() as u32) as usize;
            let fd = list.remove(i);
            if out.len() >= max {
                keep.push(fd);
                continue;
            }
            let st = self.events_of(fd);
            if let Some(Fd { k: FdK::Epoll { items, .. }, .. }) = self.fd(ep) {
                if let Some(it) = items.iter().find(|i| i.fd == fd) {
                    let e = st & (it.events | libc::EPOLLHUP as u32 | libc::EPOLLERR as u32);
                    if e != 0 {
                        out.push((e, it.data));
                        if it.events & libc::EPOLLET as u32 == 0 {
                            keep.push(fd);
                        }
                    }
                }
            }
        }
        if let Some(Fd { k: FdK::Epoll { ready, .. }, .. }) = self.fd(ep) {
            for f in keep {
                if !ready.contains(&f) {
                    ready.push(f);
                }
            }
        }
        self.h(20, out.len() as u64);
        out
    }
}
