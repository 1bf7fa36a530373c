//! the two extra host calls a guest under simulation has: its configuration and its observations

#[link(wasm_import_module = "sim")]
extern "C" {
    fn observe(ptr: *const u8, len: usize);
    fn config(ptr: *mut u8, cap: usize) -> usize;
}

pub fn load() -> Vec<u8> {
    let n = unsafe { config(std::ptr::null_mut(), 0) };
    let mut v = vec![0u8; n];
    unsafe { config(v.as_mut_ptr(), n) };
    v
}

pub fn obs(fields: &[&[u8]]) {
    let mut v = vec![];
    for f in fields {
        v.extend((f.len() as u32).to_le_bytes());
        v.extend(*f);
    }
    unsafe { observe(v.as_ptr(), v.len()) };
}

pub struct Rd {
    d: Vec<u8>,
    p: usize,
}
impl Rd {
    pub fn new(d: Vec<u8>) -> Rd {
        Rd { d, p: 0 }
    }
    pub fn u8(&mut self) -> u8 {
        self.p += 1;
        self.d[self.p - 1]
    }
    pub fn u32(&mut self) -> u32 {
        let b = self.d[self.p..self.p + 4].try_into().unwrap();
        self.p += 4;
        u32::from_le_bytes(b)
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.p += n;
        self.d[self.p - n..self.p].to_vec()
    }
    pub fn str(&mut self) -> String {
        String::from_utf8(self.bytes()).unwrap()
    }
}
