// A minimal blocking MQTT 5 client over std sockets, and a broker in a background runtime.
#![allow(dead_code)]
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::time::{Duration, Instant};

pub const SERVER_PRIV: [u8; 32] = [
    205, 100, 157, 80, 236, 140, 109, 150, 91, 254, 27, 10, 200, 89, 193, 158, 49, 238, 24, 134, 137, 225, 220, 169, 32, 209, 239, 35, 2,
    254, 0, 166,
];
pub const SERVER_PUB: [u8; 32] = [
    180, 132, 40, 246, 52, 36, 9, 93, 224, 18, 51, 123, 188, 226, 131, 145, 196, 93, 24, 112, 227, 133, 8, 199, 229, 139, 2, 248, 5, 115,
    136, 37,
];

pub fn free_addr() -> SocketAddr {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}
pub fn config() -> MqttServerConfig {
    MqttServerConfig {
        mqtt_socketaddr: Some(free_addr()),
        noise_socketaddr: Some(free_addr()),
        keep_alive: 20,
        dispatcher_queue_size: 1 << 20,
        max_packet_size: 64 * 1024,
        channel_permeability: Permeability::Permissive,
        private_key: SERVER_PRIV,
    }
}
pub struct Broker {
    pub rt: tokio::runtime::Runtime,
    pub srv: Option<MqttServer>,
    pub mqtt: SocketAddr,
    pub noise: SocketAddr,
}
pub fn broker(cfg: MqttServerConfig) -> Broker {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let mqtt = cfg.mqtt_socketaddr.unwrap();
    let noise = cfg.noise_socketaddr.unwrap();
    let srv = rt.block_on(MqttServer::new(cfg)).unwrap();
    Broker { rt, srv: Some(srv), mqtt, noise }
}
pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        v.push(if n > 0 { b | 128 } else { b });
        if n == 0 {
            return v;
        }
    }
}
pub fn frame(b0: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![b0];
    v.extend(vbi(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn s(t: &str) -> Vec<u8> {
    let mut v = (t.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(t.as_bytes());
    v
}
pub fn connect_packet(id: &str, props: &[u8]) -> Vec<u8> {
    let mut b = s("MQTT");
    b.extend([5, 2, 0, 0]);
    b.extend(vbi(props.len()));
    b.extend_from_slice(props);
    b.extend(s(id));
    frame(0x10, &b)
}
pub fn publish_packet(topic: &str, props: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut b = s(topic);
    b.extend(vbi(props.len()));
    b.extend_from_slice(props);
    b.extend_from_slice(payload);
    frame(0x30, &b)
}
/// options: 0x20 is maximum QoS 0 with retain handling 2
pub fn subscribe_packet(pid: u16, filters: &[(&str, u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    b.push(0);
    for (f, o) in filters {
        b.extend(s(f));
        b.push(*o);
    }
    frame(0x82, &b)
}

pub struct C {
    pub s: TcpStream,
    buf: Vec<u8>,
    pub eof: bool,
    crypto: Option<snow::TransportState>,
}
fn split(buf: &mut Vec<u8>) -> Option<Vec<u8>> {
    let mut len = 0;
    for i in 1..5 {
        let x = *buf.get(i)?;
        len |= ((x & 127) as usize) << (7 * (i - 1));
        if x & 128 == 0 {
            let n = i + 1 + len;
            if buf.len() < n {
                return None;
            }
            let rest = buf.split_off(n);
            return Some(std::mem::replace(buf, rest));
        }
    }
    panic!("bad length")
}
impl C {
    pub fn open(a: SocketAddr) -> C {
        let s = TcpStream::connect(a).unwrap();
        s.set_nodelay(true).unwrap();
        C { s, buf: vec![], eof: false, crypto: None }
    }
    pub fn open_noise(a: SocketAddr) -> C {
        let mut c = C::open(a);
        let mut h = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap())
            .local_private_key(&[7; 32])
            .remote_public_key(&SERVER_PUB)
            .build_initiator()
            .unwrap();
        let mut b = [0; 512];
        let n = h.write_message(&[], &mut b).unwrap();
        c.frame_out(&b[..n]);
        let f = c.frame_in(Duration::from_secs(5)).expect("handshake");
        h.read_message(&f, &mut b).unwrap();
        let n = h.write_message(&[], &mut b).unwrap();
        c.frame_out(&b[..n]);
        c.crypto = Some(h.into_transport_mode().unwrap());
        c
    }
    fn frame_out(&mut self, b: &[u8]) {
        let mut v = (b.len() as u32).to_be_bytes().to_vec();
        v.extend_from_slice(b);
        let _ = self.s.write_all(&v);
    }
    fn fill(&mut self, until: Instant) -> bool {
        let left = until.saturating_duration_since(Instant::now());
        if left.is_zero() || self.eof {
            return false;
        }
        self.s.set_read_timeout(Some(left)).unwrap();
        let mut b = [0; 65536];
        match self.s.read(&mut b) {
            Ok(0) => {
                self.eof = true;
                false
            }
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                true
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => false,
            Err(_) => {
                self.eof = true;
                false
            }
        }
    }
    fn frame_in(&mut self, t: Duration) -> Option<Vec<u8>> {
        let until = Instant::now() + t;
        loop {
            if self.buf.len() >= 4 {
                let n = u32::from_be_bytes(self.buf[..4].try_into().unwrap()) as usize;
                if self.buf.len() >= 4 + n {
                    let rest = self.buf.split_off(4 + n);
                    let f = std::mem::replace(&mut self.buf, rest);
                    return Some(f[4..].to_vec());
                }
            }
            if !self.fill(until) {
                return None;
            }
        }
    }
    /// bytes of one packet (encrypted connections send one message per call)
    pub fn send(&mut self, p: &[u8]) {
        if let Some(c) = self.crypto.as_mut() {
            let mut b = vec![0; p.len() + 100];
            let n = c.write_message(p, &mut b).unwrap();
            let b = b[..n].to_vec();
            self.frame_out(&b);
        } else {
            let _ = self.s.write_all(p);
        }
    }
    pub fn recv(&mut self, ms: u64) -> Option<Vec<u8>> {
        let t = Duration::from_millis(ms);
        if self.crypto.is_some() {
            let f = self.frame_in(t)?;
            let mut b = vec![0; f.len()];
            let n = self.crypto.as_mut().unwrap().read_message(&f, &mut b).unwrap();
            b.truncate(n);
            return Some(b);
        }
        let until = Instant::now() + t;
        loop {
            if self.buf.len() >= 2 {
                if let Some(p) = split(&mut self.buf) {
                    return Some(p);
                }
            }
            if !self.fill(until) {
                return None;
            }
        }
    }
    /// waits for the broker to close the connection
    pub fn closed(&mut self, ms: u64) -> bool {
        let until = Instant::now() + Duration::from_millis(ms);
        while !self.eof && Instant::now() < until {
            self.fill(until);
        }
        self.eof
    }
    pub fn join(a: SocketAddr, id: &str) -> C {
        let mut c = C::open(a);
        c.send(&connect_packet(id, &[]));
        let p = c.recv(5000).expect("CONNACK");
        assert!(p[0] == 0x20 && p[3] == 0, "CONNACK {:?}", p);
        c
    }
    pub fn join_noise(a: SocketAddr, id: &str) -> C {
        let mut c = C::open_noise(a);
        c.send(&connect_packet(id, &[]));
        let p = c.recv(5000).expect("CONNACK");
        assert!(p[0] == 0x20 && p[3] == 0, "CONNACK {:?}", p);
        c
    }
    /// subscribes and returns the reason codes
    pub fn sub(&mut self, filters: &[(&str, u8)]) -> Vec<u8> {
        self.send(&subscribe_packet(77, filters));
        let p = self.recv(5000).expect("SUBACK");
        assert_eq!(p[0], 0x90, "SUBACK {:?}", p);
        p[5..].to_vec()
    }
    pub fn publish(&mut self, topic: &str, payload: &[u8]) {
        self.send(&publish_packet(topic, &[], payload));
    }
}
