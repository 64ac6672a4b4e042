//! Stands in for the phase2 crate, which is not in this sandbox: enough for zokrates_bellman to compile.
//! The ceremony commands cannot run.
use bellman::groth16::Parameters;
use bellman::pairing::Engine;
use bellman::Circuit;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::marker::PhantomData;

pub struct MPCParameters<E: Engine>(PhantomData<E>);

fn no<T>() -> Result<T> {
    Err(Error::new(ErrorKind::Other, "phase2 is not available"))
}

impl<E: Engine> MPCParameters<E> {
    pub fn new<C: Circuit<E>, R: Read>(_: C, _: &mut R) -> Result<Self> {
        no()
    }
    pub fn read<R: Read>(_: R, _: bool) -> Result<Self> {
        no()
    }
    pub fn write<W: Write>(&self, _: W) -> Result<()> {
        no()
    }
    pub fn contribute<R: rand::Rng>(&mut self, _: &mut R) -> [u8; 64] {
        unreachable!()
    }
    pub fn verify<C: Circuit<E>, R: Read>(&self, _: C, _: &mut R) -> std::result::Result<Vec<[u8; 64]>, ()> {
        Err(())
    }
    pub fn get_params(&self) -> &Parameters<E> {
        unreachable!()
    }
}
