// Copyright 2018 Developers of the Rand project.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// https://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or https://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

//! Thread-local random number generator

// Every draw is taken from the controlled world of the calling thread.

use crate::{CryptoRng, Error, RngCore};
use core::marker::PhantomData;
use std::rc::Rc;

/// A reference to the thread-local generator
#[derive(Clone, Debug)]
pub struct ThreadRng {
    // Rc is explicitly !Send and !Sync
    _p: PhantomData<Rc<()>>,
}

/// Retrieve the thread-local random number generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        crate::prelude::thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        mcrt::draw().u32()
    }

    fn next_u64(&mut self) -> u64 {
        mcrt::draw().u64()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = mcrt::draw().u64().to_le_bytes();
            let k = c.len();
            c.copy_from_slice(&v[..k]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
