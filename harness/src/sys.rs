//! Raw sockets for the scripted peer, and fault injection into the socket system calls the
//! code under test makes (the symbols are interposed in this executable).
use std::cell::Cell;
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd};

thread_local! {
    // number of upcoming calls to fail, errno to fail with; only calls on FAULT_FD are affected
    static FAULT_FD: Cell<i32> = const { Cell::new(-1) };
    static RECV_FAULT: Cell<(u32, i32)> = const { Cell::new((0, 0)) };
    static WRITEV_FAULT: Cell<(u32, i32)> = const { Cell::new((0, 0)) };
    static ACCEPT_FAULT: Cell<(u32, i32)> = const { Cell::new((0, 0)) };
    static OPTION_FAULT: Cell<(u32, i32)> = const { Cell::new((0, 0)) };
    // bytes the code under test has received on FAULT_FD
    static RECEIVED: Cell<usize> = const { Cell::new(0) };
    static HITS: Cell<u32> = const { Cell::new(0) };
}

pub fn fault_fd(fd: i32) {
    FAULT_FD.with(|f| f.set(fd));
}
pub fn fault(which: &str, count: u32, errno: i32) {
    match which {
        "recv" => RECV_FAULT.with(|f| f.set((count, errno))),
        "writev" => WRITEV_FAULT.with(|f| f.set((count, errno))),
        "option" => OPTION_FAULT.with(|f| f.set((count, errno))),
        "accept" => ACCEPT_FAULT.with(|f| f.set((count, errno))),
        _ => panic!("unknown fault {which}"),
    }
}
pub fn clear_faults() {
    for w in ["recv", "writev", "accept", "option"] {
        fault(w, 0, 0);
    }
    FAULT_FD.with(|f| f.set(-1));
    HITS.with(|h| h.set(0));
    take_received();
}
/// bytes received on the fault fd since the last call
pub fn take_received() -> usize {
    RECEIVED.with(|r| r.replace(0))
}
pub fn fault_hits() -> u32 {
    HITS.with(|h| h.get())
}

fn inject(cell: &'static std::thread::LocalKey<Cell<(u32, i32)>>, fd: i32) -> bool {
    let hit = cell
        .try_with(|c| {
            let (n, e) = c.get();
            if n > 0 && FAULT_FD.with(|f| f.get() == fd || f.get() == -2) {
                c.set((n - 1, e));
                Some(e)
            } else {
                None
            }
        })
        .unwrap_or(None);
    match hit {
        Some(e) => {
            let _ = HITS.try_with(|h| h.set(h.get() + 1));
            unsafe { *libc::__errno_location() = e };
            true
        }
        None => false,
    }
}

/// # Safety
/// same contract as recv(2)
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32) -> isize {
    if inject(&RECV_FAULT, fd) {
        return -1;
    }
    let n = libc::syscall(
        libc::SYS_recvfrom,
        fd,
        buf,
        len,
        flags,
        std::ptr::null::<u8>(),
        std::ptr::null::<u8>(),
    ) as isize;
    if n > 0 && flags & libc::MSG_PEEK == 0 {
        let _ = FAULT_FD.try_with(|f| {
            if f.get() == fd {
                let _ = RECEIVED.try_with(|r| r.set(r.get() + n as usize));
            }
        });
    }
    n
}
/// # Safety
/// same contract as writev(2)
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if inject(&WRITEV_FAULT, fd) {
        return -1;
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as isize
}
/// # Safety
/// same contract as accept4(2)
#[no_mangle]
pub unsafe extern "C" fn accept4(
    fd: i32,
    addr: *mut libc::sockaddr,
    len: *mut libc::socklen_t,
    flags: i32,
) -> i32 {
    if inject(&ACCEPT_FAULT, fd) {
        return -1;
    }
    libc::syscall(libc::SYS_accept4, fd, addr, len, flags) as i32
}

/// # Safety
/// same contract as setsockopt(2)
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, opt: i32, v: *const libc::c_void, len: libc::socklen_t) -> i32 {
    if level == libc::IPPROTO_TCP && opt == libc::TCP_NODELAY && inject(&OPTION_FAULT, fd) {
        return -1;
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, opt, v, len) as i32
}

/// the scripted peer's options, which do not fail
fn setint(fd: i32, level: i32, opt: i32, v: i32) {
    unsafe {
        libc::syscall(
            libc::SYS_setsockopt,
            fd,
            level,
            opt,
            &v as *const i32 as *const libc::c_void,
            std::mem::size_of::<i32>() as u32,
        );
    }
}
pub fn set_sndbuf(fd: i32, v: usize) {
    if v > 0 {
        setint(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, v as i32);
    }
}
pub fn set_rcvbuf(fd: i32, v: usize) {
    if v > 0 {
        setint(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, v as i32);
    }
}
pub fn set_maxseg(fd: i32, v: usize) {
    if v > 0 {
        setint(fd, libc::IPPROTO_TCP, libc::TCP_MAXSEG, v as i32);
    }
}
pub fn set_linger0(fd: i32) {
    let l = libc::linger {
        l_onoff: 1,
        l_linger: 0,
    };
    unsafe {
        libc::syscall(
            libc::SYS_setsockopt,
            fd,
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

/// Options of the scripted peer's socket, set before connecting (they shape the window).
#[derive(Clone, Copy, Debug, Default)]
pub struct PeerOpts {
    pub sndbuf: usize,
    pub rcvbuf: usize,
    pub mss: usize,
}

/// A blocking-connect, then non-blocking, raw client socket.
pub fn dial(addr: SocketAddr, o: PeerOpts) -> std::io::Result<TcpStream> {
    let v4 = match addr {
        SocketAddr::V4(a) => a,
        _ => panic!("v4 only"),
    };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        set_sndbuf(fd, o.sndbuf);
        set_rcvbuf(fd, o.rcvbuf);
        set_maxseg(fd, o.mss);
        let mut sa: libc::sockaddr_in = std::mem::zeroed();
        sa.sin_family = libc::AF_INET as u16;
        sa.sin_port = v4.port().to_be();
        sa.sin_addr.s_addr = u32::from_ne_bytes(v4.ip().octets());
        let r = libc::connect(
            fd,
            &sa as *const _ as *const libc::sockaddr,
            std::mem::size_of::<libc::sockaddr_in>() as u32,
        );
        if r != 0 {
            return Err(std::io::Error::last_os_error());
        }
        setint(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, 1);
        s.set_nonblocking(true)?;
        Ok(s)
    }
}

pub fn listen(rcvbuf: usize, sndbuf: usize, mss: usize) -> TcpListener {
    let l = TcpListener::bind("127.0.0.1:0").expect("bind loopback");
    set_rcvbuf(l.as_raw_fd(), rcvbuf);
    set_sndbuf(l.as_raw_fd(), sndbuf);
    set_maxseg(l.as_raw_fd(), mss);
    l
}

/// The descriptor of this process's listening socket on `port`.
pub fn find_listener_fd(port: u16) -> Option<i32> {
    for entry in std::fs::read_dir("/proc/self/fd").ok()?.flatten() {
        let Some(fd) = entry.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else {
            continue;
        };
        unsafe {
            let mut on: i32 = 0;
            let mut len = 4u32;
            if libc::getsockopt(
                fd,
                libc::SOL_SOCKET,
                libc::SO_ACCEPTCONN,
                &mut on as *mut _ as *mut libc::c_void,
                &mut len,
            ) != 0
                || on == 0
            {
                continue;
            }
            let mut sa: libc::sockaddr_in = std::mem::zeroed();
            let mut sl = std::mem::size_of::<libc::sockaddr_in>() as u32;
            if libc::getsockname(fd, &mut sa as *mut _ as *mut libc::sockaddr, &mut sl) == 0
                && u16::from_be(sa.sin_port) == port
            {
                return Some(fd);
            }
        }
    }
    None
}

/// The descriptor, in this process, of the socket connected from local `from` to remote `to`
/// (ports).
pub fn find_fd_to(to: u16, from: u16) -> Option<i32> {
    for entry in std::fs::read_dir("/proc/self/fd").ok()?.flatten() {
        let Some(fd) = entry.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else {
            continue;
        };
        unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut b: libc::sockaddr_in = std::mem::zeroed();
            let mut sl = std::mem::size_of::<libc::sockaddr_in>() as u32;
            if libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut sl) != 0 {
                continue;
            }
            let mut sl = std::mem::size_of::<libc::sockaddr_in>() as u32;
            if libc::getpeername(fd, &mut b as *mut _ as *mut libc::sockaddr, &mut sl) != 0 {
                continue;
            }
            if u16::from_be(a.sin_port) == from && u16::from_be(b.sin_port) == to {
                return Some(fd);
            }
        }
    }
    None
}

/// bytes the kernel still has to get to the other side
pub fn outq(fd: i32) -> i32 {
    let mut v: libc::c_int = 0;
    // SIOCOUTQ
    let r = unsafe { libc::ioctl(fd, 0x5411, &mut v) };
    if r == 0 {
        v
    } else {
        0
    }
}
