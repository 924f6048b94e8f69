// generated by tools/gen_poseidon.py
module bls12381_t8 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 8, RP = 64, IDX = 0,
    C = [0x611ebbfcfacf815becdd665aa83f6cef781bcf55312a545d62d11d985b4e9c48, 0x68c0f532651a1436c7552df114dfad7534a46d375832161edf3d93f56b29ba36, 0x4a0d717510450e7100e34bc67ed63ce324a4456d1a29646d0944c70c1389e0a8, 0x6f16fe1769e4ab44fa19ae2dc605e40355356a7b99e09b64bdff14fe359ee9f5, 0xd81f308bc383dfd63204f158bf9126a8f941e4a1eff86c9886690758f37834a, 0x10680dd82aef9d414d6a972dd5c642b826a050665d070c028d16aa843f624ba4, 0x50afb145d4ff2e9980e4cfa7390a9f758a57bdf19bd58b272c6ffa97dc39037e, 0x1dc28b10742d02101f7c62bf730cf0faf6a05d1e46c45d53ee4226958f0fb57c, 0x3043b9b9cc568b04e2c32c60e50881bb228582b7307d52f108c09d1673296635, 0x6dd16b474c1b19e12d7704b51e711e4a15364935358b65373fc4fb1aa2d5bcd5, 0x1148a70f67ad62413c1b09885fcda611cf03f8793f085329222f4c91d16759b3, 0x59647b66bd092d975b3b1a7e53a5950a2fa921e4d55842f20b8e743a59bbbf0, 0x32f087fb028c26384f0838ed4cc0a1edaff424152b15eb95025b12d4ad398e34, 0x3a84e4b00760dccc0c7fe421626d00121d0bf426f7d6059d56f8dad63a0ed3b, 0xc40f237135903d79be63fbcd4162375498733f1660bdfc921c241fd61fc066d, 0x59827a744a7b46af05cd99b8a753d03b00fd61899ea30520c11e02faa749154f, 0x2d57872c19507eb704a86fdba56e2d9c615683131d0a65b551a4aeba1df7aa90, 0x52deef6b3df5fe7537f92c4adc3ea5162e83b96c78497e16291bb5eff22df506, 0x181e5a862db76ac96d6a92628ad9902674231f3046c1556f795d3412fa21f9a7, 0x3cb1f8db2b0a9af87106d5d69429779fe74991ab2fde82b20308d606d7ecd346, 0x61f366d52d788f6d45ef25ecc7cce6683368a6b57cc77ce4e013c068d4c5f627, 0x32f8a6eb24972acacd9123afd3c2e6b1f60bbd8d5a992dac81337c7dee47ceca, 0x3f8fb13300660e244d9bcb52bba7c0d3b8804601c779a97d4320fbe310edfac0, 0x16fa76dc3815600e6f3bca5999096e3c09a7273526d684d1c3671535ea41359d, 0x495e96c724f2826ff1427ffd6192d1716dd702ef375fdc305d300fc255fcfb7f, 0x449c309d4c2b76046229e7e46b16c72a06efdfa9aa106a76e6f3f5bd9a087e64, 0x47fb96ce33ab6a6b2e12f720dc66a9cdd4371987402999321d90603f5deae81, 0x1d9ca497c7abca270dc6d4576903595d765d12f181ac51054972da320f7687c3, 0x4e28c508c86f087cb63f4afb2830b8f9f5c2b5f9b6e924c5d59c11b98e48cda5, 0x4e5c89ddb7364beeb1bc0fbf6c42765f87bdea3863305646f553c98ac0f57924, 0x1c2cdd96a2e76fbe100c77ff88b0b7d7566094e518542d23e7bbd2af8f465727, 0x34886232b21f747fd02694a120c0fa59336aa37fce427783b3dd24792aad70df, 0x135761563d18efc61905cfcdf5b72613fa28b2dfa181372a41849bc28d8e777e, 0x3c086837e1c6fbbd60e1b06fac846fd79aae869165ce08b62a411271353dc9, 0xb5cf4004d9c2f8a4b5da5cc18c408b3022c24cbc4f345190f7d219b9ba597ed, 0x4ebc6dd62372359cdcc6d9bf15cb8b6b03425edd55c41b3550bd771493b3f6f5, 0x2dc2125afb4ca77559631bda4dc6f84c9a3dba2d4d0c29e8dcc13f41f3e6fbc1, 0x4f4c9051b513454da0408c1bf08218ffda881177d67860bcaafeb2d9b8c5a6e1, 0x7171dca7457e59516bbd96d0a1ef9567cd399e78ade66cd76b257403d5e31a31, 0x4279d81bd21c0945db099d5836ce34a7b3457d839f5f70353299ee1c3478a2c5, 0x611e99d8296e6b73c76547e47b8e7305fb8a399380b6c8722e4358389236785d, 0x405a188f306584e27b48b68ee79a4f6612f8bda8246d813e3a74897b7bea426f, 0x68f6cedaa2393e5a82ffd7e26575c33c4d981c451b1ebb78ce0dbd1ee6e279f6, 0x8181cfebe8073e3be4147745899fd5076e3183741bbff09861b6aa9ecd87da, 0x14aa60d1eb99e18f5b816f039aacc45152f99f987dd31a71a63dbae073d8725c, 0x4f1a37fbd17de5b74a2b098bbf12d02b6165ceb4457974d96b6fe98240f425e4, 0x967ee262fb01e13d40914aaf183a4eb7f563ba7af997a75e12d1ef20f292307, 0x5b4e7d3dff8c21c802930b571dfd8ce31814aab46fe767589d9b3160ba51e17e, 0x478e63b98f7e753de53cfacd044edd4a0a7fb68ef87e7e8e53d521f289627a5c, 0x4f1402a0535c237b16f7c800b7953c8233d166372cab4c082324f0439c35e016, 0x1061154ae3b8bb097f2b4972f507044087509cdcd4b7619ec2c4faa4667d9352, 0x6f8c30a51d969a4350eb1f15dcd1bdfefb779d949bd898318ac508c94ce25093, 0x5a631caa46f47d2d9caa839942194fe6b5525185dfb13f0f547f1d7033fabbc0, 0x54c25d3b3c5a32edf71fbbb15cb1f414465127c9bcadeef093c09e0226c580cf, 0x24a99c7f82462c34a253b0a8a1bfc5930a3e1e13b7daf288ac5ce111246cadb4, 0x5e0cfcf0074b95c6c2ed719f3d66a37885016376b466941586f59476688382f6, 0x44c520d9d0c4c91cfb32cc86871742c578abb3266ad3332d7ee009dc7ce32da7, 0x6d9cf09a1e19190e84562143a08da5ec84e040785dcf844cb5e7ed7d0fe10b3, 0x16aa0bff01b4dd83906ff77530b35c6bf54dec5632e0858460417e55432a6876, 0x5b7546b8049a252d82c5f6f8527b2f663038b094496433664cd93d307cdbb43b, 0x5b79f0ff37180a674c31d7cb58fde98564a51f92db29a76a6e8100afdcf94cc6, 0x294c4cb2154e42513037cf53159faf9c377dd4fed820639aacbf794a122134e9, 0x5b221bb5afecea07f0c785f3113c913dfa3fca9ce69eb69691f5c64bfd7f63f7, 0x859db67f7c37661ccfb0ae34a3127c5351b5680a98da2d6748848b66570e777, 0x18253b4876d70e83c5d48e7aee98ee129f7f8b3cd859e2381dc36dee803bb35b, 0x1cb2c2d9721a4c946bef11b36a40b19104630df70df9cd1fa91408134f5ff15c, 0x4c3a773b121fc8db66d4b222e3adda8b2b15850e1094024e495d8a7c1231a70e, 0x1514b8b244bb444c5a0ddad10cfc8c6ee1de83cc5ecf97d10cb13f5b30e6a37d, 0x71e0f7890911b184d51595eb0aba3611a01fedd165650eb01b390d9ee9998a8c, 0x22493b0612b3020f79729ea153aee8973dae52d4b4c9fefcdae084f51f611ed, 0x2ad66efdc63b1dfa629ee98ac6955b7b04f29250d1f654a701f396b84ef84af2, 0x64c6f1fd1d65c8985b79e09e1bc042113d5836f4eec3be525c76968efde82fd, 0x58baf72d76994e416636dceaf7e4ce7ce884ca9c425084d820753881ce03bf77, 0x6f0b6c7135691e4a8f8ba5383bf87002b311355a5fd26a365724167bc19089c, 0x3a972bfe0af9d489460d3a8086af1c8507c94d31ca0d36387a98c99162b1b7b2, 0x4271e3c2ca8dea365bded5a7cd8feb77481a0a629bc5bb1e0ef23aba9f16e6be, 0x46221d79f7ef305e1d58c1ef32a3312ff97f26968b9d09c6e8f8611a48984a06, 0xb4a42d15e7cc8b33f308a4fec09659317c061e8a771c8ef0a04f9df184d36ad, 0x24bb735c42b89abf582dafcb25faead45dccb712dd541a98764093e52e2c407e, 0x243d03378bc24bd4e29a085913ac53eedfeb73a69a60921754e7e4125596514f, 0x5981be21c2470ac9a5c4ae954fc76a0cfd81380eac36c2682a6442b13ff1ce1e, 0x519217cbc1e410fb0fdf57b473e64c9e5ee723828d0804c673679d4642645332, 0x5b87b6cb2a1cb9bee14c4a52fad429fbad72dacb38cc199c7c7135530d661568, 0xdf95a395db813344aafa3ece919c35eaed02eaf5f971f88d8b393fa7ce69480, 0x138c00263923db3c2af4e0bbc2e40341f2f12e0ee7f0845396f585c9d195a42a, 0x1f02e90d4076960c4922d984fffdf6e765a2ceafc032ca844808651cc051ebca, 0x1b11d6f07c3f6c6fe2d40578cffe973c8c037129713453a39d69154e309889, 0x6d37fe18680605aa8b029898888a0dc423fff8276145336458258356a0279f04, 0x60b9cba359b26ae13493a8da9062ff8eeed673cb55322eabd1b6487ff782207e, 0x3c8624a38d4a0b5053d36df1d9dbee985d677f0d255afdb90bce76950cea7612, 0x657de7ffcbdee781dad3e94b265f35000faffec3f20063fff9bd9ac1719f08f2, 0x220741d77b4818b4282490de0a0787d7f79d46586d2a37e0250a6baf01264b18, 0x1289a8679c54b1cb512b7b6dbef374ff3292e618b33a815a352e0237d5e90fec, 0x3de9962f9ae5d7b9be9061f67504b0199f3410d1cfa6b12b3d883d20103d82e5, 0x3aaba5e7853ee7b74a9b17ce5d07ac18040cb01576168a9f18c90525f87289b2, 0x1498781abd6ec869a1bcee3fd09602f65a3b25f271e9bf8fc79e6eb1be076f19, 0x3a44e714587c4a28692726e8570d431870d5546b2a2405ce274a004bc0019be0, 0x2ef0218d715cd14fd7d0cd06b11d8590a2d9d1ca2c5dd2c7dd45bb53d08ccaf1, 0x4d01d1f22173b8b8aeeb0dbcf149b67ea3893679c8ca717f8e5ddb48b05063aa, 0x631482781401e127961dfcb823ca35a5bea109666c3b41166546463357ab1cd5, 0x28bf8ac1130f7e56e3545d8e83b513c517dacb15181e55fb596857363dd17308, 0x4f598d013ac74c8c6c8ae655fb10f5931d911765f32af41322a0c4bf1c926951, 0x1878c0204414fbd09106c6ff194a44c76381dc332b7dccfd9e63343ed445967c, 0x2d38f77766d751d2c5ea0803e938472303ec47ede66dba31cec9963488617c1b, 0x287e5cb9161633b3567358708c751cc3cdf80fcc92fca794b113d24d6eca8a99, 0x155a155a8e2a121c84dae8924d58c3c4a07d8de5747ae81616dd6a59a3c5a304, 0x3644c56da323b37915103ecadd918671514e846f0dd459f4ed9d4abe9b2e491c, 0x65a726494b8a150da4dcccd4e3cc6e16cf25da531aca22b3db4e17ab8f3b1041, 0x2a01f07ceb7ba00f94be1e2bad62189fe1817bb9cdb370f94b721a6fea79f59b, 0x134b8743c0411ffd6928b70c727ad6b05c275c38f1562845df48f0ac0fe3988d, 0x4243d33bbd0e0db1f6a8ac9af147e8b1a994e00f09d41f3758ca5d5261d1a005, 0x304ec9007cce686daf86efd476dc5f4957ca06a446f0e96e24f40e6905ad391e, 0x2d82761c641dbf3c6eacf3f88cad1ea7f083022d115d05abaa5d42735fe26308, 0x1ae3376be821ab308dd3ce84ce98bce8d9d49489a4bd90dabacd54968274b814, 0x6c1a910978b3daefdce1736643e39102b97ec39b14c1304f755b470267639d57, 0x27301c185369dd8d6760db56f1db6594a29ba63d54cc878b64403a54a3e70337, 0x55dfd71fb2ffb7a5d68d5da88455cac9a881e6890d94b8dd73525928787f254a, 0x32d3bb31dc9ec811486734c20ec5f2db42b3b4c2b9094529f3898540e4544732, 0x51d33a9040fdcfdcde2d74a985afaef5efad5a90281d7fc7698baa1afe4ccc1c, 0x58ef86a61ff34de1162a77b290d6e20c9bb402c87bb26e11ff339629c70d95c8, 0x5e28882789bb008189721b233e9322b557ce35c2c0890453a47e640a23f51184, 0x6e75233970305cd488446a6a7fcfb27ef34932d2fdf4f33100736f1664895d20, 0x6611a84f42f40019319b4c60b3ac8b4c41205f26efe309157e3977663c47e24, 0x49d4bfbc7cc4b2b8b74587755a6b0ddebc1db344414fb0f5729bc167c75066, 0x1270fdc779d12be624eef335d16d2b6d84f87fb7667b227ede5ab385cb4f959e, 0x33022e5cac150553ae4294a29f46863f0bba50d78ea8ea6f22d22379c7753600, 0x3d47ed78201f525b22200808ad573dd59368f2a4d9d23bc571b6eea0c571d5c3, 0x20687708dbe1c822f56a1129600cfd0bae632583d8d7b04264fb0b5c1920880, 0x415b657e42ee50fd71a9c3073a592c21bc958b0c9e3c4b8c9b2d506f78d82d92, 0x118e85763253569b29788df78b08dad76796e7c72d167c1c64534a684938f24d, 0x26bffd264842f78c59fbab4476ec3c428736f62d169fbd9dc731145d8e54b611, 0x22f35455edc92bf5d7e37f1e12fc78299731cee94b22263c81b0af9eb6ad815d, 0x8803215fef6632a452ca581dcc387a28699aec4408579e2f9be46e44947da31, 0xf5a2663fa4a922529b18305466a496773618e3537446363a4a689dbc6e402d6, 0x5b7ab03411f8c2830ec46e867639f95f24bc921a6964df773a0d84b2e13ea38a, 0x5e5896c924b89ee5e3644f90b196af8486c57262b538e0743de74f5d6a0ae5a, 0x5a73e60e56475cb8cad6d3f96dcfe22f202cf01b8e1995537bf2f7c3466db8d2, 0x4c8ca60e8e8cf243ba4198db546d6ebe498297edb4b758b386d1f853196906a1, 0x6d7191699eaeb553240a1726c64f7bbd0ec4c4be96ba4a00ed4bcebb00b200f9, 0x164f90903954493cd2dd4dc736518526a27d9abb932190d09790ae092b1a3ccb, 0x5477852b7948c34d94a072afb4cef52a63c8538f392fa1a03b246700282296e1, 0x475776c361477ec2e37c8ed901732c3df49d946b1a91176ed681125e1ccd0835, 0x5a1b8c60747e3be1ddad2654857c865a2d9a6673e584adf2ff9b1da71b908e84, 0x4bc8e0d78a09497b8aa3f7d0d5dbe8e786ff0c4e50f79f72e7b6320e4c65bf44, 0x6684671b46bc95df974cbab6c092afe57ed6b32f13c179b8a5148be21ebabf6f, 0x6cac2dec7e3a7188093c4ab9d3298a652f7fb414ff5841e12e2ffe452be11dba, 0xe507f99382b0479a583b749ca5d2bec17a9a730eaa325fc00b9eb67936c2320, 0x3638892e25960488ceb29f3c00a25c9f97d098f6d062889dcd3da02c1bb535c9, 0x3148f166bb5b1f447309b81faba1b1c750a48d6d88a92cc245b6d48523b67cb0, 0x4f9bb92fe8c030018aebc3bb1ca954e4fc74c21be4156f514eab6b157b812c0c, 0x40b89b7b760803a9a223ac11275fc15d3e25b755fa502fc89e8d9108bcaadc8f, 0x4baa66ba2b16aa0ddf27de5db42fdf950ec73457d82a0d3679da3e2d362f1b59, 0x54eb43998cb77f4104c4348ca1b5214510da7ae033c26f80fdd5d57a1afa2f2e, 0xa9b552c94c3bd7c8aba368d4e516fe43a52d0eadcfb9782f0951e2913897f7b, 0x6c96d5391ec1aa2a6213921effef814bf6da7c1aee36330e4022b5f43684a203, 0x5c68169e2c80a2214b9ee80760793ef82726efcbf3e5d72a9b98298ab7cce010, 0x5e4525fb6fe868c63160fcf58005399e71ae1b4484c1d9d9a56b7de8d36b51ba, 0x1b336d7d687ac44bee1786bee126f2bc6a42c0d394a23b303df0ae2ade537158, 0x542d92ae79a4a420101dde9dff4c7cabb0b8e00c36120d76bc39d3975edf80ed, 0x338d7a73053ec033dfd93cc7eefbad3a2cfcec0b34d6057b386457ae8b589238, 0x9c194da10799a90ee80ce3726c63431267587a71288374d597a864f8fa2a723, 0x4411b08e248516985c8d0ef52644961d0375fc7547fb3a959d75580bc82fd4de, 0x3bb2f0e5ddde8d95e246a13cb8a485f399704233311ee24b07651b17bd023705, 0x5c3b903b774ff85a97bd01f623eb525afe7b475be68801e35184e153504f12e9, 0x69482809d539ecb9b002310bd49afa58b2eda1293a80bf5d8539fb9e72152dd0, 0x1555b7007feb34859d72817d5fdaf6079a96a71fa903d6dd241f9fce693d8343, 0x49a1a6ed3bc54b4dbc95a23f73874cfc6fbbb224c92770f16ab3a338188ac26b, 0xf20019b33011c5380f3a0cf14129723eabf3cd8b8523e53873d1bd5fd2b08f7, 0x4f3eaaa7fae2ec9aa6f9aa5851a3f222c16513d8c6aeaf52d7a83042393515f7, 0x54882b5ee2f357a6fd21d03bd8b47be0b4b965d91c76845427338d4a34597c47, 0x6698a6053f4d7a04a865b438f5f65d42b898ee9f86a3218489db296e9b55cc2, 0x23572df4bb92d06cef7aacf6bd36a8f84a1aff064d331a2f1f94c0af10c37962, 0x4e7d1ff2b5b8a68a542c8fa50facc31fda2b1e76ce4ed4d602813fab74d440d6, 0x20607591a91eb964f2f500c1670745dfcc90d039c9c42446100b071cc00228a3, 0x5fb9d65205abcd367e6939c02edf7dadfb9b0a690b8cca28223df9aacd67ab15, 0x40fac4a9f8950c0fb71ab88ef90d2c3aa709d31f78789f7fb835df0d98d3fcdd, 0x2ead164b439e0e6c4e2f5a6e8388dc5a1ed1ee7c91f058531ba752c25ec73416, 0x141c695f976d8f993a79a78029cac5f8fe4c553d079fc2faf2aa690dd898fd4e, 0x3f46bcdf376623b658e0b96454d1c64d9da2ec76be3ca98aafe9b80d2e0659d6, 0x285e5167de1ee4c46e939bff9d6ff17029f3043a7996f8bdf8f04c84c45ab721, 0x3f891e5eb28eb5d467f4922167002910147df344545393927d217af84e54cbe3, 0x2b1a4c23670e18f93c298f2d540aeb0c6c58c049788ccbfac05c4d6e37f660dc, 0x4b9fe20a2f6b017351ce013138d5378be03b32815fe5a55097a9b87107a84fa, 0x408636f6949078f9e41501f479d5e4e5e3019315471ffba99cf24cf508c69112, 0x656eacd882c65f404841c45af29f48af9eb7bfe4b97056dea8f3df94475831b3, 0x4756a6604a9f32bf95225d735c72cf72c34ce69ea596e788288dc93034980e86, 0x68dcddd2fecb8291242442afaa818c24ce1f5742fb22b2363bf203b4f0184b2f, 0x68f751190f750c855496264b958468f312cd482956e9f47b5f1df75bc5544844, 0x36ead2006d64fc966bc20cf5397a51e3a9e10d9f8cded1dfe1256bf8d2b75bcd, 0x1f946ef1a76ad514e00291bbe2681501e8bb6281156edab8ede2f243610f077f, 0x4891ba40815586482b2d93fa16d4c395031acb44a67c91540e00b8a35b692c14, 0x522b126f4b3101371100a7ca7996c755f6d900420edea0183d9024e0f4fae7f1, 0x4bf53bb040051705b07cd9bb19c39e2f9dc3e8dcf5c59b8a76bcd729ca0b1352, 0x59c7985a37d69084c1d6fc828b5a5389ff1e4d013531f3c811a9fa1b6365e127, 0x1b3fa3f7805e90ebc6212b2ce9032df6f5928a72cfa3d90de587a95e2c3c3027, 0x57a0f08e6f5475a6961047ffb6826b9c64161caf6fbe817fc5fe39c4e74a4497, 0xe4084036a5326389e94c5726ea67513e044b05c033bb3f9968e9fab4b7d2d7a, 0x4f726e9c7bbdf6e08aa20b7abd034e90ffeef725aea3d5bb419b19da088173eb, 0x4111d2dc12854f7f3360ea2784a83b56eb226476912fadf80c6fdddacd2a4818, 0x3ba985d1c8f3a3a3fcb1097b324995871e6df472759c9595963884a36717014b, 0x38c590058ce731fc4ba2451a8572d347d0c7b35ba6c2cbc7482e6b33dec616a3, 0x6bcda52c0c9fe6e7928f6979437cad28da6c43e80ab12227c289398c96396fb, 0x6ec05df785d47b002a42351fdf23c770c4e0c2fa4dad40fafe81f55593041051, 0x62e9554610f07d1a7a9c72b486dc24c890cc4409066b2be7afd912f97ace50c5, 0x2858bc91f04602a94b746a216b1ab0c69d479b56732aae5517ba5cbc00386a9c, 0x55a77be85d270e57e51284cb8ab4c359b91a1066350905382a35923a34cf5776, 0x19eacaa0194dfdd6628eae0e71f6964abea4b09a1bcdf5f0673388b605edffe5, 0x5ea8e4bf1dcc78c9a0efba59ffb442e96fc716310ec2bafd7caa5867ee5faff4, 0x35287e6bda67b514262401388abaedc051f6f156ea386a1d93c54f6765a6a2ad, 0x1aec8084a35edc566a8ca06efa40fcdac754ee976b7d44e6f7dc4b4fa1a6ea58, 0x53a4f8def54ec18b923c295fcede24c2f733e0bf47ebba07ecc327108f150e66, 0x53a4872e8081e9c2f0b4045e0ef4ee1a006635c2ac7b0e39dbce9807e1590a08, 0x69b12fca930ef2e385f6ba514dfb1f5e02c55eda92411cb00725b54f5e5d5e94, 0x36ba3b5cbce8ca440302b391562d3b22a57ba73a08c99d6415ab05a2717ca82f, 0x5a2eb65a39c40cb813aca52fcab06a726dfa047593b76877768667e684bdfeb, 0x521d17bc78d6b727a926dce99f618541028a939967a613dfddc11e595208ab38, 0x2764a1077237896e80be669015828022314ca59281778b353a3963d8a8da06f9, 0x54384b913aa7e086ea10059fabb0481008361e58ed81421588837ccf853aa576, 0x6d280ee90b2a978501cde2d41fb05c00d2d1cdf90a5d862d079c5660a2dc937e, 0x14a4aa5c71f2c27518a770e7612c4777730d6c7807121cc9d424acb644dd3172, 0x26c96fb452452f346edeb878d54bc3bcdbe7553a41d5b677112bc69f4b75992d, 0x2d801f21fdaf4a3efe6fba3df8ca548fcc158d7be99c64654ffdd62f2a619f8b, 0x157e53c1b10870d4fbe54873f9ea89b6f605df8279de173e2f31ff87e8c08258, 0x436b0efaa798f5e68286640c179ec348ce3f773d6d230a2348be231cd4ab0a19, 0xcb30bc90ee3c3958c48c5c72b04cbb2a4fafabd0c01955503f1ff16cda4b25, 0x438b784d01f9cae79911744252b35a472c3f809f7a2538f2f42110e0a2f11595, 0x60a5879c723eaf093e42c74d2fcfdc8f671f75b5b1e772fae52d700df90db7ee, 0x1cf228810c9020ea91355d77942620a688a9ea4c0e54c225a3546fe3d8b7070e, 0x35e8aba72a0350f5aa4a256c2eaf1de290b40acb767b16e44edd67fa28f05fbd, 0x2803c224a1bd19517e18c7790d3906c977ef3872313164b9b48e18aeb47df079, 0x2e2869c349ddfce745446678e8884513827f8d7c4866ba60e21affe44cc90a7, 0x25f433028f91e0677a6ec8f09268c9f4eeb5f945e1924e921b3fe27d2d32754b, 0x4870c21b857b7231febde03736976a84d942d35ab054d25f6bcd7a11e90bcc73, 0x35f757a1bb3f8abd4408fba4f7d33a790219ebc113b2a7d107d95b207b75b927, 0x195ef42357875a92e363bdf4a44d39095340eae3efb6d18f705ae2f92a465d27, 0x5e81eb85394d0398e4c726497e2b74b6cd1f70afdc0e586a2f71a1858844c09b, 0x53e786960481d79a1106feb1585daeeac39212917acbb090484bbb2c15ea1191, 0x11b3fde642257415b48858e4b238ca0a06c73595292a029a69c4d9e7169ec295, 0x455101e742b315a251ceb52ce2ca390df0e3980e95033f494dbef2343380ec42, 0x5fad9f7b123ace49e49b7832875542f365bcac02d8e2f096d62e0569c915f262, 0x3f67e065252f2d316fc4186bfb6ea349ae2ded14423afda31dc00f8c9c0414bf, 0x4aeb9c3fc7f40016dcf5f5744f62b09108ae65ac784d312d48210ed323078222, 0x54152287f67d401ed556109880406775aba1795302fdb42dd8b21b2560bc0204, 0x5cf61c8248d54c78ae114c099ddb767340086f66fa29de159e21d2b24f1b0236, 0x147c83b1a1424758c728cc904a0d77e52185b05d59150be98e6fc419b152b5f6, 0x611738577e02d31704ef0b4ccc9b477a803304206f5024133bb4755a683b2e96, 0x9d673534a01c37a996149d7e7a0b4a8b5e2dff8e7d96314a85a7b80ea363b3e, 0x227c3386c9c2f41db7df49bd4f8a20fb32e3aa6c9365c89ba9e91f325f6b0fc, 0x2a235a62787c4461178a177096602a6e27b84d3eb8216bf0d329f484e4a5c699, 0x651b672e37a8b85d6477695f14d6fc1e8787039bb0785d6fdb53d9140e34b618, 0x64e56aef286bb67f42a1ec1aac28fab8742809430ec3b0bb404d884e468732fa, 0x96ee3bc6ddc5a10fa3a8fbc5d2fab451a998d33d458ecee0680b3990b212425, 0xaf6cc109c9a7561574d44dc71c041d3d0c1ffd5529161f3e9d72695d71a27a, 0x15486c7334b636e52116f7a87bd5b689b5dde8add02fd5c8403776e889d33f42, 0x391a94ba3dd192cf04734918836015105fecb1c9b354cd2fcee7ea94707d1a07, 0x6d093f8c8ec2a4f5722eabd507a257ca23d99f6c781ef3e317a0123a222720a3, 0x2d7ef53b4819942ba0668b981648840e395159997713e3030f8142d619b721be, 0x662ced54a25a22b9554347d785e0e9824f98844f4d065dbb59a38559236b4fba, 0x5987aa9ada2dbe0019f6b3a820816dce98d04475bdf0b425f8861bb8f750f649, 0x47be0c9129143b858169fc6c73830eddc8831332ed42247d7afac3b0c5e8c4e8, 0x73adfed56ada3fecc64437d96f6ead3501834b0141d5f34e7b9ede1c5225aed, 0x5b64e7a13cac83bfe530891ad48db36895f4598da2e05ce986d05eb469531966, 0x498561645f847d128a36035716f42b6ab1ebd3c8744af97bee8f5e14b63db463, 0x681fc7cb66a410dc902b765c68b1e2783a8f307ab1fc4669850221983aa5b799, 0x42943cb3cec14eb75a2de66ae347498ad1c92cb2a1bce41488e75d51b7d37c12, 0x20ecc378fa8f69795da2a1ed3e5dfae6eb1b6ee2ed4b312ed441008e4e425bd9, 0x3d6a69db456b5a3a5e98253338d4d28df7207c35d5a3f0d29e72e0f81afa5da2, 0x193d4a361ab4dad4d1157511fa699349303a12818072f65332bcbb044ba89d8c, 0x6ca11bd33cb82bf625188b09855c03d06bc2c200a7f2b32e74b85bb8579bc82f, 0x29ae5a1fa61d9b364ae0a50c5a97c8f50ed6d460062268ddb7ed33a70c252c61, 0x35a10aee403700d93fe207197d8095ef8a1c6ff4954fe6c2acd3d52cae1083f4, 0x677e18a5bed299bee5aba7e5ca0b70426180135f91ef4a48ab9519588b8955a2, 0x6b3e678c711b90c06c3581c82a243dc2bad82a4f1230d67e1bb938eb0abc91b3, 0x2369765e09a4c813c3829b6e5020c88134bc0d0646250afdbe3ca66566ea34ee, 0x5d8b79cd0f2fbf52dfe11afc2d52122c8d2f176c1b095e2e4f3f5dbd2adfa8b8, 0x96efa0cdc3ff224ce0fd32561c64eacb377d546df7c6739e4eef4890da4f1aa, 0x25347191111b1791acbc7bd3bab0cd32b1cebd6f0d0fe4551efa97f722cf7907, 0x18649c314103ddc340e298fdc792f029f01c24a67382d7e2f28c80d94dd845c6, 0x3b5e4af7cd3030f19f98012f5ed8e3dbf0a88c1e27500ee19211aeed570f326e, 0x5c7daa8b92df8e6d6ccbef0d4d247e16fcae4517093943e485466f9fe71fbd48, 0x332c45f6d21fb10038890d253607c54e2fe983479c10560d38c8fe64c9d24bc5, 0x3d73b8a224c0630057126649d4df568228be11519ef7f33204862918e1e3d827, 0x6c3c95a627afd312293fb8adcebce467f05a087ca97e598ce1a4c34fe94ec4fe, 0x2fffbb20ec45afb0a7a048006ec236b9c1d948540b9a517039d811967af52d1c, 0x5cee9d0ae0d3c9a0d7e153d283aee9fbb554a97c5857f0a2cf1dc600b3af4040, 0x3ff58397c100008c1fc01362bc88614c532ef83987e4774a3313f2b6cf550285, 0x5066ab0af20dcb9869431833e88e38b4ea40ae926ec227c0de17486bb10fd452, 0x65e73bb89d2eec8fea1386407328ab219b0db0ac3cb08e5dd3cbd6a2c3be39aa, 0x4bbc6c6f06400b533d39e8c4dda314a79a0b5d80a506350f96d5f2a56898bca9, 0x11ada9e7e601fbaf6cda66cab2feda4175c60e7d6b2146f3217d665b2866cbc2, 0x6c6417adf227313a7eea79e5a70ebcfb91a10e5cf08f1084fd0bfd54b8626e8c, 0x1d50018dbb94998a095c8e045c7599ecad11093cb4312355d9554ce072f3de26, 0x8a7c79373e339377a41134ddfbd3463f246d2058cab10048373062b0ef1ee49, 0x50de49838b67a6fadb24de82d33b9bfce0ec83f40dc9044d275623d15896aa2f, 0x22e9788c31ea6fbf7c8bcd0c437692a6b02b7b97287c7017ba0b7eecca2a5135, 0x66437b44c246ffab5520469a7b1012d75ae161b5b20363fafdddf9195d5e83ac, 0x248b81505388c81738a0f1cf897a13238c4dedcb454bf1a21664c4dd3d8bc722, 0x4aef63d60f8288e891713cc7b267a647b24348836a5db3acef703094864a3a04, 0xe7b723e7b61185904f3749076a867ef12f149060dcd9f6692879662a8591014, 0x1789b735cae93234187193ce56b072a9a425e149b87b12ce12eb3c4d4e869ee6, 0x3f8eb58e8017b1cb1d8efc2bac0ef783328f87f7cdb8987f3bebed07d6129f2a, 0x5af4e29f837e2749efe523b690cf879c068aa35c31703ab435962252491fce8f, 0x42ce5b0b90153f182fdaae6db5a9a54c001239afa89975fb0bfcf6b72d609796, 0x377d43192856604a9c71f7d3ff0b03013340cfeee534bc4f0a45d58ec1748048, 0x530432cf94961d4e8b4572741ae7016fcd8cdc8186579464f07b3ae605c45459, 0x18e798eeb43badf50cdb8ae3caed26794520320d929575b961bebf3c7a16347d, 0x3be6b0238b8475a8fbbda5990d5370ee167d9b3e6ed90cd211927e760856406, 0x2218f4f5dba841fd9facb507e5ee7a71afbd71d8c5e24202be37e24dc4e93c47, 0x4b2457657a9a4fb0ecad6aba0caba7b2efe88b6093faea30e13b7545e3a46b0a, 0x19c362b076b3f5030d0f5a3445afd65e0704e05091f4cf12139b879534c1c768, 0x71b2090c5a55b871a093106bf05bab4886a1405d92878710fef80d6e28dbb5b4, 0x49181ddd865fdb6c0cb21030734229ad6db6140eba8e3e997580444a67cde18f, 0x35d4f1e2258763585b919847864d1f0cf967716b34182bd0588891480472546d, 0x287a6eb18405b2fbff86539241e2cba02e5fe7eced80d71cd18c4b905f47bccc, 0x500ae564088cc1fd0a35eefa2d8bfc2d90bf5df8a457fcd0d5a40b0228837640, 0x4f7c042b1920d2cb307c6dd0c74029a9a7df2bcb3d995121bfd89f2eacb81b0d, 0x5b3b8896b55c98b2b49c8d21aec5dc6561120caebbca49efe70c2ad8a34c42d3, 0x6ff1cd5f540cb5fd3f6a3c40a52aed4ef91161ab484948d516b3e5ef583d3220, 0x2b66cec11304f409c5e1027961fa49fbea43030edfd81779dc1be85510b45898, 0x1f441579027c2835544713465baccee08b4f1da3d32cf66cced706e9e53a04d6, 0x5f940b031632759ff838bd008d730c69667576ebda32a61ee0f1f6190d24d905, 0x871a8cffd89d406fd160a0eaa6e877ddfc90e63b54853dba0f53683cd3c3cd, 0x22fd193b8d06201bc08ff0d2b11721d5b082554c338bd27cb525493b0e16541a, 0x591c802edbf04ab28062bbdf0cf7173cf2773d1af47aca827136cb539dd60c1b, 0x3750315efecc1a61e3f7fc036bc1eac77fac6079b032b03b9695627a592e667a, 0x1fc679644b6a882dbc3f9e2b4562b19eba754e849156213ba8a37e41c4a232af, 0x4d49255a0f938460b998a20930ae3bf350dac4844e034de50b8992af4f200739, 0x48a62c712476545306b41c3e323a9cd138fd988cb40f9dca571edca0c4be4c11, 0x52dec66a3dc76ac23b6468b6c465c91ffc731691eb916c5874bcb8efe34c6c3c, 0x3eeefd213cc8bd0c0eb8a1dfdec1b642dda46bf6b97cfef19d594fbaa9a884d9, 0x4fbe7648f145087e8dd48874db5c16df65f3553142c2144e1da4620b23635e84, 0x21ed553756c5417de3eebe3a717e51e9bbe28d2901ed748b5ad73ca16fb175e6, 0x332da67beb00ee91e15a0d5d6aba1eb746d3971260045fd0dbbffb929f105cf6, 0x279e88b343fc4e0096d9049a9e8a0b3a07e0fea5489bfab2412c2d69af9449a8, 0xd7a63fa4f2ff4bc9d08856cdeb5ca7236228f1fce75d82a47846cc170e0e3a4, 0x656ea3dcb7247cea336bc926dad10a6af110e5602c3151551d0630c8e6011cb8, 0xe112a141e7dc3c54cb77fddd476c13fa58a7d68d61b0a7ab2e084ef096b97a3, 0x5233674fe389d06a016aa93a41b103e26fdfe6a30b38c5dc547460b7b0417fed, 0x4ebc3bb9785f3c42a41fe914de6106ed1011fab3339c42ba69bc5f8c73a029de, 0x701aa13ddf6561d4be2af06a9418a8e5f6d6d0602378b62d9883e2fbb3125c1c, 0x6f04df417c05bdcec0794366921c409e8d9214707063fe50cff98b9c3222ee4a, 0x1aa44985c52b90c4b72ea41c56efa484fe7b3c1f46c51e61d5cfea61f916cba1, 0x21477c737fa438f13e5318199c1351b10df09d8f5e1ebd253f2e58a110eb5b68, 0x3e2569c02eb717fff77ec6843a92d0a87925e1f59f5aa495964e4c599e9ee57a, 0x52b625f83afee4f75ba217ff055716161ca2a4620dc7b418bf4812712f358f7f, 0x4b1dd4553c172abe1bc679946fd7dc0a0498a6e689b3a2b7986c6ea36f10138a, 0xaa63b55e71ec6afae4b55cb45f09b26bb9887fb295a29cfe7901185ef3b76a5, 0x3abee05474645d16b5e84c4bf8766ba705acd3b24ed2146e8be727edc2c22850, 0x160649274193d6a45af4d9c6bbad4ba4541e89edf136acc48a07e299f79e9c2c, 0x5daa0dd5f73c4fe1978b92fff123b0a0c3f3da4bd8bc7347d5bf511105fccb1a, 0xb70b7a75d917b11d6dddb04aeb033ea7c9c4749e2f54824ce935c8e0c305251, 0x4c8b0dfba495ab03b96ae0a0ced3a06ed78b1b86a152af68da27f913fa0a027f, 0x62880795de42bfd7150c5b5a3966d58847c7bb83ab2b252d08fe3b19b8b01965, 0x36cf1906471c670704b155ef32070dd6729d51e850017de4146d83d57912ac04, 0x5968a2a94cef9a211f24a2698a57850c17862da02b882606065e293977e44736, 0x60a19b2d61a22c85128a0c79bd19c6e8f9e78c8fd97d5a2aa01f6faa058fff48, 0x62fd7e524762f7b62239d501d489f43719e6bb8b2184dfd1c678f85ebd013af9, 0x46ff0e8c2e61950eb8a109e9b09ef058b6f132a0e12a392287b1fc63b52a914a, 0x19fb745b158a097c1c179f3f59be9e84a695d502b3062ded26e57be94086e44a, 0x616f1cef9ebbd79e2343a0b07c1474ed0ab1b4b01591e17f09cbbac5d3e92d2c, 0x6ba445f89d5eef22c5cf3909cd4fc8ca1036cb3a00325fde6716832b5b8928bb, 0x47c07854c7881a925f0b206849fcfdb673aad824175edf201ac48b5a5d8c6d28, 0x3a3e5bb92f49b672a29e25082cf3747700ed9021b295f096fa657d50d227706c, 0x4d4b24a2a83c7a25206d4d890b983f12871bbdcf5183788685cb8c422bf9744c, 0xba3ec7c84c7c758fd1d2ed5fb11c4c33d7ee796a4d14b66773d91f3939b8273, 0x62e5162f63b043d3586d644943fbd76ab5a19b5258cf673b59e324bfef4cfa21, 0x1e1d7f84a82ce5f6676d50f77955da55b325bef6e47b4cb675e51ce92ca14ad0, 0x652548c747fa4ea276bed842f0da9be80e99391d01208bb5ed6fc25dedffa4e4, 0x4efd8911c25a8172f24fa14aef5bd07e4f7ed69d7b0cba140a3e73b8d79182b9, 0x20285f0e1285561749782191d847a690157c04edfd5f8b90e2dc08c2833942a2, 0x3bf2461e0b2b317c8dd61e46b97f376412398f0c4b014f047ce722e1052f2fbd, 0x6971bb5b2f656b422be525a996968084279fe652b9baa7adf7fbab181b37634e, 0x64c0cbf64f671a5765a941f94ae961a0ec4559a8dde6592520ba25781e8ede81, 0x282b8ef83b777c1958cae882049574df88705c71735785c1bbefc6a327a168c, 0x3d1659916b896bfdd8a8eaa5b53d5efa03739e9748a0444e890a6f8e6aca42e0, 0x6263f68a2c196020915959c248af05477f1e39db9f6ee5295fa8a0d28b7c67b, 0x332cc5549defbeafc239e6840c4ce4abf0f2e7525a65d747c019ce4fd910778e, 0x1b1ffe5322848d37d8fcb4cd5194685de639ab21cd4f0fe34356f9b956eed0e7, 0x66cd4ad4c1f848999ae78df384391f7ee71d77aedea8012b25873b3cf6cfb71a, 0x7247d87f2f4806c901cb770d62643493554ae693d35323f9d32aa00b60dcf884, 0x310ae5a6c9dac933969ab9f5d3bc414e6ce9decbe19c8c4e4bbfbf745a814197, 0x4523ca63c11af0d407723a9fbaba9dd9d277718971b7672e85fe876a547421e0, 0x556ee5635dfee2bf52537209897930bac9ffe3e8bc5fb2288fd49f9de837fda1, 0x31c24c780060db63f773da50341f668f4158bd272627bcda16540b220e6ac579, 0x54a50a6318202d1a15e679a5e5c6e80610f348fa2c84709526f02f63ab729d1c, 0x2056aa189af37529f261144dc2c83ee944f33cd96b4fe1a50899f02bbe83f49f, 0x1e0edf6b3f2572541b91c1e184f812b82720598f21a07d5119429e86d3302a7d, 0x29e3f17203bd203d4bf7c3fdb90584848a9351b7a038f53fda6cfc7b4d8ee4b7, 0x149dcc5c63851ce1a911d024b359f20b2f83bfa4888d4ea7ee169d343f040c7e, 0x41fe014fd7f0dc94d46bfddff9a6ead61a25222489f355f01a532a2bacccbeac, 0x4a0f15ba59fa364d54fd01b19f28653624a743317e85ece914c68c2171df800, 0x389ebe27a68cd13f3a4a75cf598ffc50b48cef94b4d9b386b59ca0df438b060e, 0x2b2785a65d75f7b0fb32fb6f3168de0bc9b4a05cc5709ad1407f23195f179f81, 0x158283b5a8533c74c1f1ad0a08a73e833d5a9d566718c51a2c116275e7fa0deb, 0x6acb6da85be4ad0fef88c1860b7aab978b173fc29de5935edad990a00c1fd328, 0x1baefc3328a8d951f36070c22102c119e8dbd7f3f85adff79b2dd937f784bfbb, 0x37b920f4aac3fb55d20a60d2d1d22b6fbbc3e9b5fc5aef5a089aca831cd3a641, 0x682cc206560d0352ab04190646d623f66ff9927997f461d5ba578d8af96df588, 0x1a726a850d7b78b87b79a0dd16d054da74511dc3fca2949eefbca9837f357938, 0x478622cdbf4cebb600c9e8e6dffd9fbb44963921f9a10a0e4a9cb5f7fa78d093, 0x695c004076e6cbc7fc93d725e5a0aa03778d74a84d84b4d868dc0cd57f79b3de, 0x37e0727a33fabfff203288c7abd03111afeb8c841310d1b85dca70ce6693f5, 0x5a8fd17ec222e17169aa0e7309484303d972f1b1a55fdc85e70893bc539fd4bc, 0x11fa1829f221795805e552938eead41aa4b1ead87705de80d5bf9a30243db7e6, 0x507d567b12f84faa7f6becae3cb0a142920fcd52a9e00ef7b1a184fc20ddc3, 0x2a1d3059bcd722ecf281e1321a6ad8e18fdea91d5ca0fc34f9464827175a9a5e, 0x20140dd984d761ce4339c38c59ad6d3a5066cf30261a54d07bfaf7beb55fed7d, 0x265f0f5e8f6f3fd5b3c76c0ea30c04fa79652c3e24de24dd1e5759573ee6a709, 0x4e4c1aaed4973da1ac6d79dd53cecce79dd47d96c60753675f344d27a557e83e, 0x2ed67992c19006b9d296567f0dbf4ac0ba52237b63a152f50514ef494ca3b544, 0x20edbf7d79c226dc6395a8b1080f1c1b71fe7b4481386cfc9bb4f8ae309e1b87, 0x143d4b1de0026d3d95aa2f8aed167f170e59d580aee7c0cd51aae624cd356636, 0x107aecd1347a753f526a520a51801904da718b23adb5f62c5e0bbe2549018ac3, 0x430f7d831a7708d2fad8bf96c731bf5a92366a6c13d198da611f3bf8010fc504, 0x40c9a45755c475e17765987733a779a640228ee2c0d48cb9e42cbf968cb39017, 0xbfc8ecd0abca4c7b21288de6c2e44c79ec759f3b64bef7be16acbae77c690f, 0x28802747787578f505d7f983d0688d3b91c76898562366e249ca0dde18f34fb, 0x1f385b5e45546261693736480a9d01ddae447e61e4068675df24c6dd1f25da8c, 0x53f9cf1a5c76a9737227a3b5deffba1a0925b809ce1995c2d5adcf78c9cf2971, 0x6abd0eaaa0d1c28989ab32046ab29521c293e629245570900be9e6972cf18aa6, 0x714337f740648e588316bc0e41fe0b743456c67e62d8619d62f6b8f068ccee08, 0x3b0b6639b5987ce0f8dfa211e6e74c244b471b02c1c24e9fd3f3e0ba8fcc046a, 0x3ae32511059d48de45ea35c6f62216d86263550c7d0d034043af4b3520a14f70, 0x49e6942bd3404a811b927cb9294e76ba634ed0158b341926da6959b5405942f7, 0x215e9e87b9d98c77c4e6715a812fe2680bb3ef70e6cc2c2d3d7557a4b102e9d8, 0x20d2de8d5c72cc02210257980c9434403d5b0ee3635a4c3b16d73d10e16957e4, 0x2b9c8be804096290a57216989fbbe491a6f43cc96aff205e1ae68e5be64ce513, 0x2dd1233fcc2f13ce6223ea839731652636b1f01be0f3d9742577a6dc946c6b0e, 0x149c2e13c34305e64b2bffb9d0b89dc4e20994184b53dea999a89b605af80535, 0x177f9dfb787d48226e407624296f28d352cc0169e4a197fc699503b1c30b0a1d, 0x3c52959d19a559b704591e69ca0e68de8d179e198d178b407511599d9fe14b80, 0x25f3659dd81155aad14a7efd68fa018ce841d269c90157dff5d7f0eda62e669b, 0x6541a892dbc4b9f9964953552bff67a27a3f9aa4ce031c08b9f597c4da9214a0, 0x3ff5082148254bc33f8851eeb948b3212caaf76b7c630b710f339c20b3d43111, 0x601000411afb69a0a963ababa09a4bc5d48a635329a6bf295fc7dd11c3716414, 0x3fabd6db3dc5f5a7bd7f51a406f39be61ff403754b2f65052be295ab06ed3eee, 0x3b885d8f27785d9cd3f0cb0523d27e74fcb236d1ef6dc3a8a2a564eac472de25, 0x30d877eb786db19c77a07be1abd08726b56fda967342968d5a20fa03aaacb03f, 0x4afa8abc99c0091e991de3d4af886d8c114d331b2b1ceebf46629baf6b1fcfb4, 0x5a0dda6e111e280843e1b3301ddb18c0d8058aa480d08475680ab0b77597977, 0x57d61c41fe8d199587a390c42b7b567f1b808c8f53431516648f4b07a5bc1b4d, 0x69c8b99e0d10749e177496c006ab28a8ba5688d35cf1f86b4244eee3261ad59b, 0x2c94356dfcee2e326c55e3faf45aad20b68407bf9ef239c2b3763d5383f4f443, 0x179eb99e288dc3ba00ddd60fde47ae085ae1589f106ae5bf8794ab13acd9aae2, 0x10170f669a220a25a5353e0c38410f276f7125688d5ca62225e0101484a08e4e, 0x53b452ac9907eaad5969a60269cb3e927c70992bb93c3c0744efedb3d2762a18, 0x1f0d036b718a7a0ac535f9cfcb153bc8b9aa4e15fb756016dac88d8c16297093, 0x3065e25a841b6a890a7cac6f775656e21ec1ade27078b8f4c4c3f01e232c7690, 0x3f5b93ef476eb62f261f8e81bf34f7d79f81a6450360381eafd572a804bb5cbd, 0x56c56d99c1101fde83593af5d62bb31cb55b58277a2b8f80d583fa471276077e, 0x2e9a9820b293c70f0ffb1c582f737cadde1f67d3a348c492389542a1914b79de, 0x44a7fdaa89fb9cbc66cc6fcded65804317107ddc76d02fbfe0c0eadf536a2b78, 0xafe3fae275262dd91552946ca80a2be94dd5bdd500c954be19cbefc12c98be1, 0x6ca8224555ab9c446475f8a7ae2232a78df59aad994e8364e0e0c83018ae8c60, 0x5e463f0fe2a6d1c61e7c87a03df6d608c5cfbba709bd89f5b7110dce5d76bd83, 0x515478a3091ecfb2f576b96463185a98dfc070e258616ecacece38ca852178b5, 0x22d357b65cc1e9bc3819a743bbcf6618e25c386dc5ff93da3037fd6b6c3af8f, 0x3becd73f02a1ed525c4dc93f6b8db3d9c7a48b6f2eaa2a0d51e7f5b4e7ee4e10, 0x5dc7ee23b231e74067e57710bf8fe396313a17b44335c8ef5403c89e3c487a90, 0x1b22d183c85ad260b812a3fb8861ee452b5fa34cb358856a5b0ea47541082bd8, 0x1b48fefd99e41a5a6bd2931851f6c82472bbf0074a0685d2d48148e9fa06f5a6, 0x409cebaaf6de549f60d8f9387b1caf666cd83159640964b0a7ca5e3e415471e7, 0x48d5a5ca62750f63e083c6154356d108a515e5870bc375097c84c4da76481fec, 0x3ec2922ffa83972411c841ae8103465fb3a77aadf44d1099b884eb9e8a5e5d11, 0x10c3647c966b402c0387dd4b3a990a11ee7e6e888a78554cfdf3815e5da6f1f5, 0x32a6e2649486e00aeda32d1e282792b5a9014aef4414cb29ae432f3f19cbd623, 0x22a96d37935024129de4108b42f74523921f9fe668b2a79d008fd2906a128cc1, 0x4c750b1d9b2e67ee1fd07f8c05ddcbfa932edc9ca38b0f204155f5e325cfe560, 0x5ca60553609d00c0dd84424efedc8a4b450f833af0864d6f776ddf7cb5d2159a, 0x3633c8afd52d464f4d800ea4020b21db42386e01dcd6f3544f8ac515445dbd57, 0x47707232163f9ad4fe93992afad2ebed8f212ece88ac1601fc84d6dbcc802e69, 0x55ddef2be54580a69a194a5d682ab074e0c019e9226ad3bb5e61dd1854f3d45a, 0x47321ebe6f4f22d2ac2e39957690c0e60afb8915a494def77e0dbcdfef7a191, 0x9d5d76cf6ea8d128ca643a3bea59f7028f040d4ed3b56e4a4ac262effee17da, 0x614400d6d6782c1604143a6acbb2bb801ddfdbb5d5cc7e4eefda6bc4023b5f8d, 0x2f834aa6aa3bfef3cadebdb985173029f7ccacb99f1730d6321e1d23b3fd9bac, 0x10e3ca4dd9d1887eddb0d809c26ce7b4ced48d95503329f19aa582237d5de66d, 0x5aa2ccd3c1fb46329972bae2836baeec182d1bf771a4112e1b644b174605bdc4, 0xe17be23241fae39293e48e7071b503303a45f53eb37aa911aee1df128d8d13c, 0x6ee5630022347672618e0f45eaef20dc56e961bcef151a034b403eb17718f1ba, 0x38672624606c4a6575d3b0cc768a04a7fe7eaf2fdfbdff13e7f4fcb7c071882d, 0x61a80cb81e72a94dd0f0c0971fd244c820c215ce7a9321005f9837f8d8e4c4cb, 0x658d0b73a2971f35614ddb39c48d3af367ca003aade1bbe81729a8c73d8887a7, 0x243ebaa93ccaa70f66839f2e459a1a5c41d050557bf542c4beb063bb274b66d6, 0x548bc72eeae4f50fd045958df8d992424d5684002d22560afeaca7dd17aa7958, 0x2f4fbc7f218c62de8ae0638c9dbb6bb5e78e0780753d81217c9f70dfcf270356, 0x4343310a2b0da1cdd463ccf28c78955a646299b575e40a7d31e773c658bdc7c1, 0x37262112ff81336330510e23130a9c30082a10c235c5060768979f895af0560a, 0x3ecf0414eb403b69049feeb96cdb45608cf2c13bdd4a4df746402b476e49804f, 0x40a087dc7d9295abd961763a684cdc66bc7f8c65b8549d3c75a4c9546b51469b, 0x721be305e5552445de24d4cee7fcb59d8be6303d527cc788563fd73d1cec8dea, 0x4b01dc833f30015b0d2f34990cfb1bc2d7df11405ca72a134ae805f2b7c4b756, 0x3479e5e8abc56facfeefb35b9c17d5fff94af8500b6fc6aaad2165364eb62562, 0x36718999661807802f1863a7364f720e98b6eb36ce0b2c887219ed2b6f08eaed, 0x606003cd16cb06300099cd324f2cdff70a35ff9c7eb17e770e44715e652726e1, 0x6c94fbd4af6c72524aae6b31f9269b4fe41497c1e7b8422a3405e71b37a66f32, 0xcf432d95a17429fab46d1ea98249167b90de4251829be8c15168c4419b3ace, 0x42180031b998bf74c368dc1c1392c0673648894492c99ae382e8dff67be64ee7, 0x3f5cafa73cea6a88bbf4155d7ca62c528e2a9d8e34a3b397f28ad56b2c4ac995, 0x69bbe07ae7652ba97f1eeb5ebe0c00f3f28e4d4b3ad6e2b47dcd02b12ef1d05d, 0x72f8441c77281d75d86c9df6346d80c73e8fbba174b947ba9efefa48ed784ec0, 0x2da1e9705223a98a22fe09a02e215834f6c53d12bab45990c41e90e9883ccdcb, 0x67a6838c98f1a8b60fa473b5fdb42fcbba3405d72e9f597f6375b902238a1d36, 0x3f9808ed5701203a837062a586fc766a4984f40235a2e9e89ec47115e28e90b2, 0x56e2849dbf45ae97f611ac3ee35ee3d65f5c72d623ed15c99aca10bee45ce78e, 0x2be6adce7ce9253c81cf7768533386c2e0e1aa3eeb26704fea40f30669bce299, 0x611263554e5f8e5b2181b0ab0b1e10ae34811f4563f586969ffde4f6d564140a, 0x46dcb7c2b067c24d7f87c9599a640d084991933f5f6efcc707663c227258af2a, 0x5dd86d1bca2b5bf3ba9dc7ad75161dff54b70790a8a438cc29a5926847cda35e, 0x9535dd3f44730804281afa5c3e7ac623a2bcf37aff62d92ae90445787df0c92, 0x28672679bfdf6ed69ae100a9aa1a1c59ff8c013061063f0b8616d93469beccc1, 0xa1ad4bb18f6cfd21a42698546ff5026c06999197f3a7652c8838165180ef00f, 0x71454bba73812ad56f5014c474cfc652cf922e74749ea13d1e1c73a1a933dddb, 0x5950df38c389d38d2b52738ebb3fdec3d81e1b1e423f10c3040e0b729a225080, 0xb54d66a221fc9b187818a083b7c9bf88d8454aed1ff447299da154a6b098bd2, 0x3af454bc1d86cd9d6f8ca2ecc998923cc7ed876c4a2f57d7beceb367c7624fba, 0x3ee37101a56000fb8fba6e05833d579ed59602893f99749db3497b6996cfccbc, 0x409e973959c77dba021731af819c69517822ce74566a2a6f7ba6c3d849b495cc, 0xd78917f9464be0c68efa31fb1b641a8b15df5b3d934a8ba0dade58fe9ca88bc, 0x1df3271bb3f0361227a3c767c6062de2b145a695ac5fb5552c6a4e9bebf25d54, 0xcfe4e3aac3ad79145425798e6fd27c840a0aa5f906d54943fae108cb1f5659f, 0x6e6860d71b71ffd14b9ed35f8b8e057b37a709a161880909149759980a94b334, 0x388e08de62233048cfef698a85e95e918c91d6f4206427c017e5478c80445233, 0x3cd84ef717ca6d7c259e0311997a52f35beaa4c3e50d044747182b70f7651f79, 0x337204200c806ff3e01c1ca467679bd32a6718c9a2cfb45dfb02d678c93c2030, 0x52d7d1623479af1e2e20fbfb436595644a71d2714f66d5887dab28586905af41, 0x35f9e12ff3d1054cbc2a2f25b98a210d1c8ba6760460f63b3ac0b75d04e420a3, 0x109399a5dd004431465beb2ba6619b4fd8778f156ba458157c8abdeb4b1f60a2, 0x3a2e26ccd3b4cb0ad9635ca00516247c413d509052c97557a00b8fab90aaf9de, 0x3e8c090f1ebf7ab1a845eb520b7f73cff6df414fbbf9dee34e1c64fc98409692, 0x4a3389d42bb887035ac09da4e1e38a8879a549f460443827bcc120c912ea4b54, 0x311079b2c3430fd33e9277798d272eb391e2b3c1ef7227ca027a77ba8f76ffc6, 0x2fecd2015e47d2314c7091b3f500c743f5251d29cce4c9b407ec4589d06ee86e, 0xb32f7269f0b4a8739d6a5de018aafeba559286b3de4028d3c7cfaf54bed8e88, 0x6a01653e85896a3d607d6a3d4161260903c2cd0df9dd0963fda3a82fe13348bc, 0x2fc420acb15240273b03a1d1fbf4970edfaf5ba6b414d0f62dfd931ce62a94d1, 0x5a04282c6ec6831b899776b7b7b6fbccee4124cdd6c21b024d647218def289bd, 0x3f2d3d02053c0d60300c9c4163f788603f4ebec82cdae310c5e34cf1c88cdaa0, 0x6a7d8e3568feb1a44667898c7f8b3b76f1ad5e63721ef3a97b95d54bd89812da, 0x419c5bc87951a89732b2aa0dea945955401eeeeffc7e09a4924f1c145d84c84d, 0x6b85cb9127e1f197267d277156b6e694765229b99234ffd1136ea70e0ac55f12, 0x4d628a7ad8f0d7c823e803771db0e4fa971f2867e19c9e24548ec8cc7bb244eb, 0x684c7f3f37cd073cd9091cfc002d17f687dc1c270d1a709bf844ccf74bd969b1, 0x4e1d8a22a8f5a791543448669122f46a0e90601f34189b3c4f92c4479d0bb481, 0x42e8f12e498f00fab174a339e2c1d993c3446b2b396e124e88507c108a725646, 0x31eed39e165e5d8271514118938d43b1d161a31c80db776ddbe822eff0abcb92, 0x3b389e3cdea01d1f5f4cc583202852ef5f1cbe506ca907be1da391b3bbce798d, 0x7f9509fa689085fc79a149177117957d8a226e5b1ed89f0197c9a3a2a97b9f3, 0x2013979eb894b7bd7a651563a78f70d1b8db1fa61f540bb5d822f6dfb9ad1a8a, 0xadf6a5dc3056d3294e52ab49374ac22fbfdd0fe1090874ae90652cab079af7c, 0x593729c900091a39ab2db70a0067c120d6e0ba2fe99ed5f565fca0fb854fc9ce, 0x32ab8533c6cd3ea089634242ba85e41ad6437bd347f15df8e0a78cd252c923b5, 0x41d3783bb6c0404e81911eecc881d2f58b94564fe3612db6100402a60517ddf1, 0x32501f1da296e7f6ed45931af470f08a67a05adbd8c22035327854077e6dd6e0, 0x6160aeb2c73e7fa9e9aba3d8d6b575a19194e29f5a2fdc54ebb1e3a302b18fe3, 0x1988075a88fa8a6fd5a02b12430641d742e73b6723b6f007f1d1625de3b10ccb, 0x43b1701183fff4562fb9211ae56b9e48e1389f86ba3d08140652910c6d05cae5, 0x570e4412fb407adfad2884c6a22f5667cf5f4ef4bb7cc67a26cbd2493b1753, 0x4b3657e1e92111b0b8eae0d705b64efc555ea4f7fb4b8d5e786c57d4e48d18bc, 0x94669b536718a0074f2cb750ce05a36460636692897bb1887ea3f656d4cf389, 0x4d1f0f0e4bcfa1d10c9c521bece39fa5c32a719610b03bdb685bb4c5d5f958d3, 0x48d101c0b6ba97db9789c1175ce5e8fb7a2343e2df06fd935aec0f88eae4be03, 0x409892d4a6d68268af1d1025cde65a2c98952e8ccfc9ef685d4746891e4f1515, 0x10d9b2f1e02ddaada9758285ba1328f93861343b2aed46c6d994870c8ab054c1, 0x14176b5d587b29e6c8bbc0929a4d1d98e56fdf05016f4f86a1b8753968a7816b, 0x56e6d0da6470991b46c85766e86efb23e9c7c98386772c05ef3e6cdd659df51f, 0x2c0f98756a5e9ba4e2a093338633643d5a5ce166885c9bd577ee95c7fd83fbe9, 0x2ecdc851a0593bf0619045b590e170a61998bf076debc9d75b928febb8caab48, 0x59d93186e9c0176778a3baad84274426ebc8fc01d7b4f4383d3640d93f53ae0, 0x15f6aeb7ebf61072cfb3ac4ed9f03a1a1bacf85dd0114b8d0e36c912c37516f9, 0x228341c339797359be85d8246e26a5266cb487bc101af5e57ad9faf95fb7bdf2, 0x70c62c82404319533026f8e78d68327767cb13d75746e8ff0697edf8814b519, 0x4cec22d52d510118ab795daff8fb68bb974cb60285c8695edf73ec32ce113a46, 0x576ecc9da950469212758b7b655c5e2d98ab7a988c53e58daf646ae348609b3c, 0x3f824603e7fd5176b67b4ad99dfe345a2efefe82f2f5346fb12f3844aa6eadc9, 0x39153e3e98bb5820b7e540ee417dc4857c099b8ef890eb2f75c69ec3aaf541e5],
    M = [0x1fff3dba00a0ac32bf310368d6a9c564a3552cf68612546d70d028fcee1c8fe7, 0x46699003598add2236dd20966de0b602a07042598a7a6371a1b33a1b2cb5d831, 0x1423d853e2d6ae2e8a2ab39837e6cede777cb55733320af3d771630c2af8deeb, 0x361551bcfc7bf6919bf6f08bf6968678eb732e6fd98e32154765ef67130548f3, 0x353d7b149d2d10e72c4a291913623f23e6986f95f5eb93086200ede5c03bc582, 0x5583c612f981b4e9439a88a7c66a18930b05463513cd30b845a4505036eaf99d, 0x12f3442b346b681aad06b79f0cc49efe38b7e9df28511830c0d1f3ee7c1a5b7d, 0x64e936e237931df7672d4fa89da777faad00fadb990ad0b52182f01d38e5ddf9, 0x185612722001956947197b29726258aafabac5bc687c274a0496704fb5b94491, 0x33495d49dbd1348d4a14a709e73028b2a2e4579d1c590c779e01e844374d449c, 0x38c32523763fbb8cc8ffe2d20c9ff71c66ad3c843fb33cc29630bd2a9d802d4d, 0x257ef42fdaded1533e82f5ed6636715da15ee72441a9a156f97af350783e2065, 0x4998d55d7fe767d05ad3487aec7cd1d820993603e1844be6f63169e02c87b062, 0x1ba43d12113f819809c802841d0d2b2b80e7f193ea2f76f21625b874c44c70ac, 0x6f391f0c613601b0445b818c83122dc52c8d4a8a3cc4e60f0820eceb9c59d32c, 0x212ee56a6afb8fbd7d6c14832b64449083a5117c3d16d675e72e42eb2643655e, 0x4ce08e7d1df4e906f0ec616634185e3b5fc09b3d06e42aa87952c0299711af2f, 0x47d5567535c546584909af150edb2121103b096d36d3d891ee654897062b29e, 0x666ea1471a82042fcda36f7bbea8181f2f75dc03a9aea16d359ad3be1c2af6a6, 0x42645842eb0fbe304315a64dd3663860eeb8b0ea6fed3f28ac885509f5ee3ce3, 0x46a988e0ad3b4b3620025a6416b0bb3def6606fc43fbb549faa0fef6e5d7596a, 0x4a94517afe903999599d1da909ef79ae06541b74ea58c2c5b8d32509bb36a068, 0x3dfa7bb2a3ad7d326a1a3907777487fc0ea0b041222237173ec9d639738ae48e, 0x6fc5a66707e196ce352e717b7f2072a6a4d995c8a54f766b4046fc63bbe358fa, 0x16c4bdb7e7725fabefecd0593e3a87eb4a7af489c04093f7442284ee8442c154, 0x1b528daeb3c9419f987263c2f19a7c3e7eb2a2ff90c9bf6eb150771e174a280b, 0x6cd1f3f47d79a079b81e893c516c2d4e71a5764729b94b46060a1df264e3715d, 0x4063d85cd5067418fb4441ff6b3ab3e2417e8c592a554760ac1c3e30597375e3, 0x56d8698151ac1eb786a59bd4f1ef479df1d96b4cafc5e230e7a09d94d697512e, 0x3467837e1bb8b5c096954451e7fd80e8a74411ef8efe0a44cad8f7fcd9684f8d, 0x219caae25583d4c79d33008e737d61d3df8244ae3ff488134f4e871c9f5e1cab, 0x796e8a7ac43c5cb23501959320357a32ab855a0398ba1c52454d7af0ec8d6dc, 0x689ae45562f7936b825f1d3cfe4049ba034b4fad2b36fabf6d32c1c14211d634, 0xfadbe41ff560369a6d6613581ce7fa13f4edff4cf4f1a7bcd3d0a20e6686968, 0x248f5bb14a80ddb2496252757b0eb59cb922f16dd15f7374ed485212e22baae1, 0x342ec7f63a875d5e1118da7c2d8a16592e346a9c431216af38ee9c7e94c4711d, 0x2248b095450b7fbca76fda2083b5a437e9a3ca815a8e3362504142a71d92a9cf, 0x116f3c60654d67f2bcea7289f39d038ba2d638d56661087ca6f77da25d3c0217, 0x9f5a62ce013f6231616d4aa5287224fdec97a344dd0566e68d2e6153f3750c0, 0x171356eca7cdcd0124ffe0119029214ee8df443a33c6051b6acd5096a6cbaaad, 0x496ec463a77e878de9362dbbb3974cd1e02026aee9f1b4164d4d7232fa3f372e, 0x513946fb9aefaa35ccd3cc114e91a92057531fe0009330a0ad0ce4cbe973b1a0, 0x39ccd7694697f6ec7d83344fae917d5da766d53066a9925b7894d5f11f663325, 0x3993291b4bbd31c09645dced4e9820b01215937eab8f7e5b57bc40e28d3a16b0, 0x486a67517976269f4ff5317f85db60b12041028983517f5406c7b6159776fa53, 0x5855af8dc819d5b06d93edadf9dc848f649759f03683abda79242f797823eabc, 0x5af833b707a05335d4f22e816da9c73e0073725fa1e94411441fd18076e5c4a1, 0x54d7a02d50c3c627d8208b29bb367366d10d6c119071ff0f9a3f71d0c3768f4d, 0x2585d8e8160bbbcca9477fb9be9923f2df3daa42fa9bba4aec867728cd42893c, 0x4712401a4622e9e13c04feb2146cc99e24272e41ac0532cbb76ca4c76b020448, 0x3ccad4b1a6fa836f6312144fa05560074dbf1cc3335fc47d2cf94ef379183ec1, 0x58955259a8b6a4d3f61217f98168a88f84584aaf0c6380092166a317662c33ad, 0x168ecefb259a9b538561c11015852c7a7010c99c8c1e51b18e54313ae3aea7a3, 0x71478d70c9650dfa198af7c731f1660800ee90e92644ab64929bfeb23823a469, 0x411c3cf58570d989288ce3d70a45fe56f092fd00324d7c1f55c5d8cabb972e26, 0x266a07062735403e992dbfd77076c5f7d95c03d51c3ea507bcaa6c3c7bf821b2, 0x29e27e4fabefc449dca57fbb710fd5c29805ce158b5fff2cbe5d477ce2fbdc73, 0x46b10190c2348c0ff34734361db76d8d255d5f86ac0c279bee5c6bc69fad8879, 0x3b6a1058b324e7daee13c59a4b809c28607a07e074686df95eb401822491ebef, 0x3e79e14b34bf4b0d6cca1981f817470fa5da1035c34cdca4cea69f606547a52e, 0x2dc7ed51ccfdefab47e0c9ff4c9d4f0828c5535910a0827eaee9c0a0ff4d00a9, 0x356e9d7a5fa54713a6717c5bc2191da220b645f96d8c5cd19f7cec338980a3a7, 0x2119cefa6e8cf9fa94383ef75797b329aabf17f914f3ce25f768df9f24a6bc7e, 0x6b4cea0c8b16336152906037e3259d91d89358eb4a518e999d2655bb0c301e34]).* from "../poseidon"
}
