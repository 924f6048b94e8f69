use crate::Module;
mod digest;
mod documents;
mod gnark;
mod ext_field;
mod fft;
mod gl_field;
mod hashes;
#[cfg(target_feature = "avx2")]
mod packed;
mod polsarray;
pub mod poseidon;
pub mod circuit;
pub mod r1cs;
pub mod fri;
pub mod stark;
mod stark_cols;
mod proof_json;
pub mod plonk;
pub mod pil_eval;
mod compressor;
pub mod wasm;
mod source;
mod witness;
mod groth;

pub fn make(name: &str, _dir: &str) -> Option<Box<dyn Module>> {
    Some(match name {
        "gl_field" => Box::<gl_field::M>::default(),
        "f3g" => Box::<ext_field::M<starky::f3g::F3G>>::default(),
        "f5g" => Box::<ext_field::M<starky::f5g::F5G>>::default(),
        "gl_poseidon" => Box::<poseidon::Gl>::default(),
        "bn128_poseidon" => Box::<poseidon::Bn128>::default(),
        "bls12381_poseidon" => Box::<poseidon::Bls12381>::default(),
        "neptune_poseidon" => Box::new(poseidon::Neptune),
        #[cfg(target_feature = "avx2")]
        "packed" => Box::new(packed::M),
        #[cfg(target_feature = "avx2")]
        "packed_poseidon" => Box::<packed::Pos>::default(),
        "lh_gl" => Box::<hashes::Lh<hashes::Gl>>::default(),
        "tr_gl" => Box::<hashes::Tr<hashes::Gl>>::default(),
        "mt_gl" => Box::<hashes::Mt<hashes::Gl>>::default(),
        "lh_bn128" => Box::<hashes::Lh<hashes::Bn128>>::default(),
        "tr_bn128" => Box::<hashes::Tr<hashes::Bn128>>::default(),
        "mt_bn128" => Box::<hashes::Mt<hashes::Bn128>>::default(),
        "lh_bls12381" => Box::<hashes::Lh<hashes::Bls>>::default(),
        "tr_bls12381" => Box::<hashes::Tr<hashes::Bls>>::default(),
        "mt_bls12381" => Box::<hashes::Mt<hashes::Bls>>::default(),
        "digest" => Box::<digest::M>::default(),
        "fft3" => Box::<fft::M<starky::f3g::F3G>>::default(),
        "fft5" => Box::<fft::M<starky::f5g::F5G>>::default(),
        "polsarray" => Box::new(polsarray::M::new(_dir)),
        "r1cs" => Box::new(r1cs::M::new(_dir)),
        "fri" => Box::new(fri::M),
        "stark_complete" => Box::new(stark::M(stark::Mode::Complete, _dir.into())),
        "stark_circuit" => Box::new(stark::M(stark::Mode::Circuit, _dir.into())),
        "stark_files" => Box::new(stark::M(stark::Mode::Files, _dir.into())),
        "stark_code" => Box::new(stark_cols::Code),
        "stark_map" => Box::new(stark_cols::Map),
        "stark_cols" => Box::new(stark_cols::Cols),
        "proof_json" => Box::new(proof_json::M::new(_dir)),
        "documents" => Box::new(documents::M::new(_dir)),
        "gnark" => Box::new(gnark::M),
        "witness" => Box::new(witness::M::new(_dir)),
        "groth_circuit" => Box::new(groth::Circuit),
        "groth" => Box::new(groth::Work::new(_dir)),
        "source" => Box::new(source::M::new(_dir)),
        "gates" => Box::new(compressor::Gates::new(_dir)),
        "compressor" => Box::new(compressor::M::new(_dir)),
        "plonk" => Box::new(plonk::M),
        "stark_json" => Box::new(stark::M(stark::Mode::Json, _dir.into())),
        "stark_sound" => Box::new(stark::M(stark::Mode::Sound, _dir.into())),
        _ => return None,
    })
}
