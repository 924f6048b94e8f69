//! Stand-in for the git dependency `franklin-crypto`, with the interface (only) of what
//! /repo/fields and /repo/algebraic name. The prime-field layer is the same crate (ff_ce).
pub mod bellman {
    pub use ff::*;
    pub mod pairing {
        pub use ff;
        pub trait Engine: ff::ScalarEngine {
            type Fq: ff::PrimeField;
        }
    }
    pub use pairing::Engine;
    #[derive(Debug)]
    pub enum SynthesisError {
        AssignmentMissing,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Index {
        Input(usize),
        Aux(usize),
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Variable(Index);
    impl Variable {
        pub fn new_unchecked(idx: Index) -> Variable {
            Variable(idx)
        }
        pub fn get_unchecked(&self) -> Index {
            self.0
        }
    }
    #[derive(Clone, Debug)]
    pub struct LinearCombination<E: ScalarEngine>(pub Vec<(Variable, E::Fr)>);
    impl<E: ScalarEngine> LinearCombination<E> {
        pub fn zero() -> Self {
            LinearCombination(vec![])
        }
    }
    impl<E: ScalarEngine> std::ops::Add<(E::Fr, Variable)> for LinearCombination<E> {
        type Output = Self;
        fn add(mut self, (c, v): (E::Fr, Variable)) -> Self {
            self.0.push((v, c));
            self
        }
    }
    pub trait ConstraintSystem<E: ScalarEngine> {
        fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>;
    }
    pub trait Circuit<E: pairing::Engine> {
        fn synthesize<CS: ConstraintSystem<E>>(self, cs: &mut CS) -> Result<(), SynthesisError>;
    }
    pub mod kate_commitment {
        use std::io::{Error, ErrorKind, Read, Result};
        use std::marker::PhantomData;
        pub struct CrsForMonomialForm;
        pub struct CrsForLagrangeForm;
        pub struct Crs<E, T>(PhantomData<(E, T)>);
        impl<E, T> Crs<E, T> {
            pub fn read<R: Read>(_reader: R) -> Result<Self> {
                Err(Error::new(ErrorKind::Other, "stand-in"))
            }
        }
    }
}
pub mod plonk {
    pub mod circuit {
        pub mod bigint {
            pub mod bigint {
                use ff::{PrimeField, PrimeFieldRepr};
                use num_bigint::BigUint;
                pub fn biguint_to_fe<F: PrimeField>(v: BigUint) -> F {
                    F::from_str(&v.to_str_radix(10)).unwrap()
                }
                pub fn fe_to_biguint<F: PrimeField>(f: &F) -> BigUint {
                    let mut b = vec![];
                    f.into_repr().write_le(&mut b).unwrap();
                    BigUint::from_bytes_le(&b)
                }
            }
            pub mod field {
                use num_bigint::BigUint;
                use std::marker::PhantomData;
                pub struct LimbParams {
                    pub limb_size_bits: usize,
                    pub limb_max_value: BigUint,
                }
                pub struct RangeInfo {
                    pub minimal_multiple: usize,
                }
                pub struct RnsParameters<E, F> {
                    pub num_limbs_for_in_field_representation: usize,
                    pub num_binary_limbs: usize,
                    pub binary_limbs_params: LimbParams,
                    pub range_check_info: RangeInfo,
                    pub binary_limbs_bit_widths: Vec<usize>,
                    pub binary_limbs_max_values: Vec<BigUint>,
                    pub prefer_double: bool,
                    pub _m: PhantomData<(E, F)>,
                }
                impl<E, F> RnsParameters<E, F> {
                    pub fn can_allocate_from_double_limb_witness(&self) -> bool {
                        self.prefer_double
                    }
                }
            }
        }
    }
}
