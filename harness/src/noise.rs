//! Client side of the encrypted channel: real `snow` initiator over simulated bytes.
use snow::{Builder, HandshakeState, TransportState};

pub const PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
pub const SERVER_PRIV: [u8; 32] = [
    205, 100, 157, 80, 236, 140, 109, 150, 91, 254, 27, 10, 200, 89, 193, 158, 49, 238, 24, 134, 137, 225, 220, 169, 32,
    209, 239, 35, 2, 254, 0, 166,
];
/// public key of SERVER_PRIV (checked by the self-test)
pub const SERVER_PUB: [u8; 32] = [
    180, 132, 40, 246, 52, 36, 9, 93, 224, 18, 51, 123, 188, 226, 131, 145, 196, 93, 24, 112, 227, 133, 8, 199, 229, 139,
    2, 248, 5, 115, 136, 37,
];

pub struct Noise {
    hs: Option<Box<HandshakeState>>,
    tr: Option<Box<TransportState>>,
    rbuf: Vec<u8>,
    pub last: Vec<u8>,
}

pub fn lframe(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}

impl Noise {
    pub fn new(wrong_key: bool, salt: u8) -> Noise {
        let mut sk = [7u8; 32];
        sk[0] = salt;
        sk[1] = salt.wrapping_mul(31).wrapping_add(3);
        let mut pk = SERVER_PUB;
        if wrong_key {
            pk[5] ^= 0x40;
        }
        let hs = Builder::new(PATTERN.parse().unwrap())
            .local_private_key(&sk)
            .remote_public_key(&pk)
            .build_initiator()
            .unwrap();
        Noise { hs: Some(Box::new(hs)), tr: None, rbuf: Vec::new(), last: Vec::new() }
    }
    pub fn first(&mut self) -> Vec<u8> {
        let mut out = [0u8; 200];
        let n = self.hs.as_mut().unwrap().write_message(&[], &mut out).unwrap();
        lframe(&out[..n])
    }
    pub fn ready(&self) -> bool {
        self.tr.is_some()
    }
    pub fn feed(&mut self, b: &[u8]) {
        self.rbuf.extend_from_slice(b);
    }
    fn frame(&mut self) -> Option<Vec<u8>> {
        if self.rbuf.len() < 4 {
            return None;
        }
        let n = u32::from_be_bytes([self.rbuf[0], self.rbuf[1], self.rbuf[2], self.rbuf[3]]) as usize;
        if self.rbuf.len() < 4 + n {
            return None;
        }
        let f = self.rbuf[4..4 + n].to_vec();
        self.rbuf.drain(..4 + n);
        Some(f)
    }
    pub fn residue(&self) -> usize {
        self.rbuf.len()
    }
    /// During the handshake: Some(Ok(third message)) when the server answered.
    pub fn handshake_step(&mut self) -> Option<Result<Vec<u8>, String>> {
        let f = self.frame()?;
        let mut hs = self.hs.take().unwrap();
        let mut tmp = [0u8; 300];
        if let Err(e) = hs.read_message(&f, &mut tmp) {
            return Some(Err(format!("handshake reply does not verify: {:?}", e)));
        }
        let mut out = [0u8; 300];
        let n = hs.write_message(&[], &mut out).unwrap();
        self.tr = Some(Box::new(hs.into_transport_mode().unwrap()));
        Some(Ok(lframe(&out[..n])))
    }
    pub fn next(&mut self) -> Option<Result<Vec<u8>, String>> {
        if self.tr.is_none() {
            return None;
        }
        let f = self.frame()?;
        let mut out = vec![0u8; f.len()];
        match self.tr.as_mut().unwrap().read_message(&f, &mut out) {
            Ok(n) => {
                out.truncate(n);
                Some(Ok(out))
            }
            Err(e) => Some(Err(format!("server frame of {} bytes does not decrypt: {:?}", f.len(), e))),
        }
    }
    /// None: does not fit a noise message
    pub fn seal(&mut self, b: &[u8]) -> Option<Vec<u8>> {
        if b.len() > 65519 {
            return None;
        }
        let mut out = vec![0u8; b.len() + 32];
        let n = self.tr.as_mut().unwrap().write_message(b, &mut out).ok()?;
        out.truncate(n);
        self.last = out.clone();
        Some(lframe(&out))
    }
}
