from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "S01"
NEEDS = "the manifest has two contents for one version of a group and both are added"
BREAKS = "A second asset with the version of a registered one is accepted."
EDITS = [("src/rust/src/core/assets.rs", "        if asset_set.iter().any(|a| a.version == version) {", "        if asset_set.contains(&asset) {")]
MAIN = PRELUDE + '''
use crate::core::assets::*;
use crate::protobuf::assets::AssetMetadata;
use sha2::{Digest, Sha512};
fn main() {
    let e = |c: &[u8]| AssetManifestEntry { metadata: AssetMetadata { asset_group: "g".into(), version: "1.0.0".into(), size_bytes: c.len() as u32, sha512_hash: Sha512::digest(c).to_vec() }, disabled: false };
    let mut m = AssetManager::new(vec![e(b"one"), e(b"two")]);
    m.add_asset_for_feature("g", AssetHandle::Content(b"one".to_vec())).unwrap();
    assert!(m.add_asset_for_feature("g", AssetHandle::Content(b"two".to_vec())).is_err(), "same version twice");
    assert_eq!(m.get_options_for("g").unwrap().len(), 1);
}
'''
