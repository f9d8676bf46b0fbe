from sys import path; path.insert(0, "/verif/tools/bugs")
from _common import *
PROPERTY = "S01"
NEEDS = "the file of an asset is replaced between its verification and its registration"
BREAKS = "An asset's file is read a second time after its contents were verified, and what is then read is registered unverified."
EDITS = [("src/rust/src/core/assets.rs", "        let mut content = Self::resolve_handle(handle)?;\n", "        let mut content = Self::resolve_handle(handle.clone())?;\n"), ("src/rust/src/core/assets.rs", "            Self::verify_asset(asset_group, &supported_versions, &mut content)?.to_owned();\n", "            Self::verify_asset(asset_group, &supported_versions, &mut content)?.to_owned();\n        // Keep the mapped pages rather than the copy that was hashed.\n        if let AssetHandle::FilePath(_) = handle {\n            content = Self::resolve_handle(handle)?;\n            content.truncate(metadata.size_bytes as usize);\n        }\n")]
MAIN = PRELUDE + '''
use crate::core::assets::*;
use crate::protobuf::assets::AssetMetadata;
use sha2::{Digest, Sha512};
fn main() {
    let dir = std::path::PathBuf::from(std::env::var("TMPDIR").unwrap_or("/tmp".into())).join(format!("asset-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("asset");
    let name = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(name.as_ptr(), 0o600) }, 0);
    let good = b"what the manifest vouches for".to_vec();
    let evil = b"what the attacker puts there!".to_vec();
    let metadata = AssetMetadata { asset_group: "g".into(), version: "0.0.1".into(), size_bytes: good.len() as u32, sha512_hash: Sha512::digest(&good).to_vec() };
    let mut m = AssetManager::new(vec![AssetManifestEntry { metadata, disabled: false }]);
    let (p, g) = (path.clone(), good.clone());
    std::thread::spawn(move || {
        // each reader of the pipe gets one version of the file
        std::fs::write(&p, &g).unwrap();
        std::thread::sleep(std::time::Duration::from_millis(200));
        loop { let _ = std::fs::write(&p, &evil); }
    });
    m.add_asset_for_feature("g", AssetHandle::FilePath(path.to_str().unwrap().into())).unwrap();
    let v = m.get_options_for("g").unwrap()[0];
    let a = m.get_registry().get_asset("g", v).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    assert_eq!(*a.content, good);
}
'''
