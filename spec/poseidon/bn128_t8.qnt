// generated by tools/gen_poseidon.py
module bn128_t8 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 8, RP = 64, IDX = 0,
    C = [0x123992df3b9daa65139ec13fbb52f7d348e134333684c1596feb0e8d8c3ad596, 0x2fa46f5dba9909ce9984a01e2af30b550dfec978be92b49119a3959c7f623703, 0x21d8f94d3bd98f0b63a7aacb175b2cca13b2dd8a8cf68fc36d94ae29401b2d2c, 0x1a8c06c61046e0f8dc6a39bc57aea0d07fd7db34e68f73579da89e116af87eb8, 0x298cd7046f58c0cab77523a58a6fdfd1401b89e7ae5eef4994442d167f7ad1d3, 0xeac737966715df4a20b31ab693eda86a07f3e830fca475a6574d67fc5f19f63, 0x6b9b718bb3b6d45e0cbe6d5d9a2f096a77beb056821750d072262af2a70a33e, 0xbccdad6e8b1fdfba846a9553fc7905b3f96e435d653eec3972565e1fbbc302a, 0x1b3ff4a6bc8490993abb7a002393cd1c1c007f49240ffc2ae1f1057cfcd8c7ad, 0x17f0c9452d70eecdf5cc8b6b0b205ec2da1de59750d6d1709751831b7e4ce26, 0xcf1ab805bc47a10349ae77135ea95a4144a6ed0718fdeed42971c160791b269, 0x18dcacac61318af644ab0f2e61ef48c29a8aecfa0282e9fc325b5c0287103ce0, 0x16fbb3bdf4066e2b2f050b89b685d408711685db7e4638dec90ab1cc794350fe, 0xeefd0b8617a1ecd7711ffd5f6c4cd0496487a1b1146e9f3d53275af18fc6c6f, 0x3c707d1835066fa30e7295a097a6ff463b85b778ca11d9bd2988d41b600aae2, 0x63ad3f6e3f8443e0908af99ce32d2c09606e84aae5e3ad30ed60d7a660738cb, 0x2cf67cc9cd3a5313d992e315010d90cb501f790bbe35a166392a51d90d117353, 0x2a6e7a7bf7c190d4e4f7f258d890dd41780e28f6b71e893716f70140f4406b34, 0x26140420009b6d8c7314723e66925badcf98440da6c2b97b66a52b98cbdf1d41, 0x212c611149d057b2ffefc9938ab1498d3b265392c73480b9cb02276906e445ba, 0x8918ab686c1a160a55db12010b20150f82632dd5933e27cd01129518cd9e952, 0x173ef7767749a3249b004eac7aa7e94dab20d465c65ebf4bab422f743f17d8b0, 0x49d90fb549e0e25790f5a6570755c68c13c97b18d67bb9199dc765355fcb1fe, 0xd1aa7cfe6ca9e048ac6ce2cda40c6d64afbb8c15a7cd9e0222566f9922a1547, 0x2d82e2ccd8bd63b2ba44bc0f4cb5ec88142a4408acf1dad452a66e8219f667c9, 0x2ab73a842e0bbfe229ea1154bf8aeb48cf2fc289b939471d6b465b7202eb2354, 0x233f36bb205dd59d045310064408c6eaf710173a118f9ed21153c99a6b0783fc, 0x18c14a50595b8df32124bf57f8b8df430449f35986242a2ff79a644f510cef27, 0x186508d6b75c7902ed6a1948f91088c7cddf973d8cfcdb4e5a5b0cac6b5b22d0, 0x10bf42990104c39b27ef0ba451b510cbb001f8ec39a313d259be4309d6429bd2, 0x163e875fd9e04b255971072c0d2e7614ee1f3c7d2b93799aa1570bf73153f3ac, 0x2925a59f82c1472b8120988e3af6cf24c2ebec9a9f0f830bb5c826061c65eb8c, 0x25caf9ff6543dcc34e2d0b8c2af3b36ebef3d4c3fe62e2937ce590a38df2da1b, 0x14cc417fd674083090f4463f66180e4a3f38ca5ba87f4889e510ada924f6b799, 0x182550aed7fb3b7d92ef0b91f4916ac7f7db3b943103ae7ba2e09ec0f4a08517, 0x216305852467475a9f934d3b1132a99642fb79fb6bb91d948f391ac9e1c3f1c8, 0x423b771f7215716cf97b3a72ccffe156bb9f8097c77a2b6dc67bb5848689b8d, 0x2247cd5af8b5ce0a983aede949f81dc7d3fc5a2cbbeb8d16ad43fa2c3a882537, 0x4990ce49123ed1eca92df7bca2b271d07ba4ae5a30c6a0119f77b51c3643d2f, 0x64e8bb29cc072af727af1b79af50896a6548dec41bac10f0319fbefc1bfef9d, 0x5f9be83351a037f574fd0f54d4e9ae5cadb930ceb51c91b07894f0160f8fa42, 0x202ce17e96cb24e8986cd09351ab9576d5a5167168f9d5f3877c4c5ce03629b6, 0x98a2fb5cb01868cde6424c4211b9549b8f550a7f03e7fcd8b5121516b3f452d, 0x2cbd947e532cda0f8f1b899ffbcdd5e0b6b08451e637fe53f3b4a8ea7832aa27, 0xe0fa4620cfc943da81b40b6b42f86fe74e55900f800645ba66137b6b7c728a0, 0x2e1ca081c96d5abf2cc40b3797c38b0ae8a8ef5d76e6d03e9bb06741c2184123, 0x271cf3ea7b06b4e743585ae68997c0143542e405c70855787181163e4ac20b45, 0x9dea127972d2109cadb7e96abba7577c0ac0077312b9550f81b7716a92f5eab, 0x1982cc716da20b119525c64a3fe85f5e31baa97c76c82376999637d8ef1c8a07, 0x226600de8bb65b38ecf996e5bb26fd6288c690f16a5eedb730d939311d0c3ff1, 0x20f7b77fbbcad998e7744ca27c0f7c0c2550a3db90fe28944e73d01d24ae6cb, 0x1c2e445cfc98637aaebc2c1ab7b6d790ebac5027071d1057a945bc90437c49c2, 0x244b349502df4a33563b30237ee750e79bde135f0b0896f0d9cde04f1004171e, 0x10860a875d80bd71c6267c1d54b02fb58c890b1cffc35fa707fe6a94941281cd, 0x2eec5addecc4e24650dbbea531a0fef0dc327dc694f229b2526d2f30b2c499c1, 0x188bb7150b6e40624b02ea2821aeb6b52b1e85b5b724bc0ec512f8fa641182ca, 0x5e56007dabde2cc83d498371e99ada953ecd69e135ef0204d2d3b6cc1f49aa1, 0x2553755b36de611ed557768bb5513731474a0a8cdc6dba8f04f3031b07687b16, 0x1cf267dd9bfb6e678a82c7745857a63e2b57066a8626b52c0fd5ff42418aa65d, 0x106b2a40087375ea2988b8e0700fdd71d3716af2bfd0b6b0ca6e24ab4b4c25e1, 0xb978e4a10dbcdcbc7e90aae2ca19615df674819cb611d93b4cbf5f2ff9a0a16, 0x2ed68ffba6a646e5047666b8ad69f6cb35ad096d6d34fe1ca67e532b5186bbf4, 0x23c632c2fe68d4f0a71b1ee63951c72b7d349797f07053df2ed33520ea3e94cd, 0x27fda5f826ce6a8340d12a584d4b9c84f0a4ea3c9d33eae8d6c0e23a5a9897e3, 0x2d24aa4c0772256e90344d20d46dfbdbb5e9dc132a4fb07faf8eddaa30da7674, 0x48d52c4e3d71485ce6af122ea136e60053e387d77369eedf8d9bbc663fb98f7, 0xe0c1f005a1759dd161302fdb233cbac5fe151b5c2192255bd757b3ced899f92, 0x230d641c4552e5e55416e360eaa32900751de5ca53e8654af8d422eec627efb2, 0x2ff6fa8364a8cfb19e30be87d4cdeed9f957dd024f8138d535c6380a8b5d38a, 0x1689a04762a5ab1388f6a7257e7c72838513c57da7f546a2017ff128afe16171, 0x288d8c7325204250e8632f42debee8a31a470312ab2fd00afbc7694f95b827cd, 0x23996135af9f3a42a6db33fd55319a7caed8da2e6e338068d78f5408552c83c1, 0x15d052dadce14506fccd2690c333f8ecac382d2b6734726236cf9c7be278bbe4, 0x1494fb65e5993d96c30bf0bce3f56dce68a2de52299b4809cc119e37d8e042e6, 0xb800ef8749f91b307947c581095ec9283c3b131be5ad5bda4200992fbff053c, 0xbac1f53d5a7d39811bae7c1a79dc997fdd5f1270f72805fb05f5c52d77c1cb0, 0x179249893fa86ee067b47bbe8335b8942bc921ae0e082c303e32b809d939786e, 0x985a7c9b42805d910a89e2dc9563e7e3449fd5b401ff4d5eac75dce7fcb420d, 0x2c1905b5f00c927a57a154c474427e31f3caab81981d621fb7fea525ccda9bfe, 0xb23502ce04c0f4cb30c0bdb6c4f2a4f81c2ef223936f07ef57856f0a9bb4f70, 0x2dc051c1bcf637233ea7c5e086aed7dcdeb51b7a3525820bdd6eb65e578519ba, 0x273d8a4166dc3f53b1ff24c61f1a3b3007a282b526c7239eec81e92f51c741ae, 0x257988be7dc257a0c5dd7078b72f692c755f01ba3c8e57d82d9b969565dbf0fa, 0x213d0fe5a3e7608fa602f5b5ad5b8260654445ebd72492a32ad3991f3a5a6218, 0x7a383e7a221bc76fb14370d4b3eee8de502601a5e4d54b3370c4c502b097a8a, 0x18ce7b3e647ce9a3a90d0ed9aa57eb9a895d596a54958cc9702d8da219623e81, 0x12320ee10efc1f8118d3ea697574eae2dfaf8f29c183abd123392e3c2829900a, 0x93d0e1304c660fddafdb48295928fb6a83114827566cbcde26ef4c87c9fa89e, 0x2931b9295d96e5b97364b37daefda7dcbf3dc9f48ab3364da9dc6a7234d714c6, 0x1f533a1e4b4878c2fc2e9706e541d28481ce43b1627d0ba46596906cf3281624, 0x2517cb724d12ee6ebfa7b4b0d25cf0315466e98d8cac3ffbfb1a1bcdee0cf064, 0xe43dc983bc8febeaad40130444ab7f9187185624149a7f274492d9bd8389ea, 0x186bc09a7ffc4edd291579876b77c2fd3eed0b1b83f21ddfb899039ceb77f379, 0x5d22a2f48f64658e181b8ae5e72e1a942796af2bfe6ef74ac9abf53ac65eeb4, 0x1f006e8d2463636bca787f765fd6ac723ad2c2e466ae6324f5d39f3eee58f0cd, 0x28913d42bdf680478ffd17374e895fe7799d9d100196f6ccc30dc08f39a479f7, 0x11b557c8d7e97bd99ae5f49e823308bd6e22694225d4029dfdcd836cb7c0ad7b, 0x744b53926e1a0ef395bb04908b13326ae1866a68983c41de56fb7cc7dcce297, 0x2bfb2f2456a70989b165fb6a3ee6f944d28362935cabe516114980f141422a03, 0x3027047944ec82cef6240d1637070c622c5d28a74302de0efd6d4addd4dc2db2, 0x1ed0b5e4b29aeb0b5b3eb128cf031759cb3bc47cc1286657cdfe88c5c411d4a2, 0x263479ee77e44e8b2ab953e82ef63a7e4aff48f0e730f4782b225cb22777104f, 0x19904c84e55e1af3147cdb7f3a428265e20c1bbccbec2a5c8b950417ca2ee471, 0x2fa8468fea3204ed2a934a1eef7c78580a8da30c5ec5922fac89ab92ad81a3a4, 0x267c0b4b19662cf09b870e05f7441e042e5b962f73dfd78d23384dc7ea71afa5, 0x2f1504675041755409946e8c5f5432d35849ba7bea0d12512547ae684b83ac2d, 0x204199d64982f574327ff3f400705e0a53b25d59ae91ce0b9d31fdbba1ee2b0c, 0xa087554e5511426780e457757c175cf6187a2efb9568a3d390d3a51c2297ccf, 0x2ef9b88428465f535cb04119f518d1c2052268455f1ab145ccf1693be92416ab, 0x2a96c9f200b477eba78316fc4497e08b2a4384b26c97c7b4ce877cb65ff5634f, 0x43293e61ef1b614850bc015dd316e2c7c54f12d2db746f7c0cdcb0ec551cfc2, 0x1d81e0e280611bf30989c1a74088493504b818b385d04d96ad298dbed9a7bdfb, 0x1ad9cf17b8368d98002ced2cf6ef9385a074c5e3aa0b2e12f4b768cc4804bde3, 0x19b30a27119ff50da2734b127ab83299a4b099694c31acc182ab453fc000ef95, 0x132d81f00bbef2804901c4073fcd9c817a63832c30d653063f67fd86482e1998, 0x292ea3ef2313863a1276b1f0e4973fa784dea78a1ec98f4d593947f6a4e73924, 0x28cfb5e0c41b0c77d987e737a5018787079f2ffa650102f2feb735c7d9bce84, 0x11afd75dc84353e2f9c2f05d1f3ca734eb45546b92396233a3f29f4e8f6791b3, 0x1aaf43ed6da39b453120bd0312f259294ea101b678dff427843c0fc816409ed6, 0x19db09df83387b1e4185cd79400609e79f37e5a4658dbee0785dab5dcce32868, 0x29cb3dcaf2ebb0f5b0b949e84278fed2d11db8c1fcf35e38189afca16c0cbfd, 0x2881df9352d274f0cfeb55df8ffeb1d0d81fcdab794082e2107e1b0426a730a2, 0x628a0f9594c159206c7627a8f10748a1df2ce582b7604a8e64a7015ebddb65b, 0x22657393eb7ed9f4572c22cd7b9d5134d1fbce295c2a95f1afc6441de60d7fb8, 0x6325f509f0362714c4850daed8744062fcf8098608005e7d08b509bba33624, 0x171d6498b42b39345d56e8661ccc2b576ef449b1f8e5bdc5ac72d9f93dc3dd9a, 0x1be82f3b1cc9d849595d85e3398331186b6e4b4cbdf43ceeedbf04735315a8d2, 0x154711be62f23cd46086b9311b28eeada8d26323f8864de7e36e5543bcd7a38f, 0x19ece5d8c0b6cc07fa0119746e7f36c9c8d496ac1e1d95cd5bb8d769a6745cd8, 0x26d6162d8d9c9c60244cbcc1bb78814265fef97a53a168c62a43b9e6f4cb2d16, 0x28bb85fef9f65884e4a99a63a59a906d586cdd88bba7c51259b1fe6a375fe4af, 0x267ccac1e34271971e474179c5800526ceef2f1a6fddaac1de2299e92d9d8ce0, 0x2e6b4868d15390d8014248eec0c7f10d8ee9eebfa64025f961ece49a9ffad985, 0x17039023ba24e37bc4cde497e95d134ff35dde6fe093ed788e4839d2bcecf840, 0x214455d91fc747c6aa9908ad92d19b2dc75a84651183dcf43b9a256320c33e57, 0xa07405f036d30ec77ec64b034b9fc5df2cff5877c3c67b7ab23b9f2d8dad2a4, 0x29f6807284b6e435ccc2fc14579baed0a60617e0ee33a358cb316811b3d8864a, 0x246894f6071fc9630f69187cb5ab506c05084114d2efcf231780b5d4b5c4a0c6, 0x4224081b90a67774d15ff98e6134493c01926f7ec25053de56215c145e5da67, 0xd99cfe7649d1dfd292f11773bfff1ce3645ce4212787ed369c0a06b602bab21, 0x1fc76023333ba4dc0f2a8dbafbba1bff33b753fd77e6b1bdc4c796a031b7815a, 0x2f60e05fa1f7446735a3717a9d73728a5b20166537ffeb65707e5f7503e8acf3, 0x1a2b7508921fa054f58ca4d6eeb133453663c8979d6216ec9ee1240b8c894e80, 0xa0aca4924bea6979a56e47af0bfa19c1db7d756bb4aade0a58e5bddd7ddcb4d, 0x262a2365cc780f62557c854566fa2c8822e6fdff8eadb90949faa5abd63a7f82, 0x19ad5a882f1dc4971429545dda3db1857b1ca0a246768b3a2b0014ba5a302439, 0x261e3360fb23c08e87b8f588bd59f08cef07bb48a6f1226a64cdc7d4de7e95ca, 0x69cc67cae46ded18fdc725c9cad9dd64e445c990271b0e2d2ccc42fdce0bf59, 0x162e21896c8d1f6c2b7ec16fb7ae7ef8c8ee19216ae189a6ef2d7ebdb1ce62c8, 0x128d42c08444d8956879995a105a336c4248ff9581139122ed9c9d55464ee9b3, 0x12e9391f7f131f13c39725c4414669bcc64c7a41b6764e687cee8e507433e3e9, 0x1de988e46c2c9a1c00d85dfafb1da7509bcb36422aab6052fd1f927df741c170, 0x2002cb8a779f93de8b44d7fb08cff50828e0771d65011f9954b424e67802cf0d, 0x28f6e5af2752c79d01a3c6c7d2930fdfb164989c20f905ccfc0982c29365d631, 0x19ebacb5354f7f272f5c12d6c71b39d89e14aaa4efbf987377337ffa3c026b2b, 0x5dd47c695cc6c95e2acd1bfc0ce335cb304a3c3380a94e8b7c070682ca869a1, 0x246bc3c037a3c9ae2bba7e73578b1a825e1672a7418801cc0743954534d9c0c7, 0x1b7ee255815ba7020f0cf78ceb9860815c0eeba268a72cecf9e3fd1a6870b3ae, 0x1ce04f643bc9513316211fdc0bc23c9a52bdaf4bccd9ca18590c1703a2d120e1, 0x2e3a6532afa95388b41ad59d7c2705445d7ce10c88d73411b7271f52ed4c44cb, 0x1f91121f2cbd1ead2f70f4f74729a25723721a895a87d73394cc9c1809fccfbb, 0x11082403388a99da0de3ed7d3b873f5abcf71f8bea6e358f5b0f17ca5276d926, 0x3962a691eb42cf5ef779bee82508641329ed9eeb7857f1cecc46dc93046e1f6, 0xa67910e294583739c2b6d18ea5ad74e141bb2a353fcdd93fc3ef83f4fd7863a, 0x1c20f9bd1323709fda124f71e88901235f44c5e48287bf0f43b45443ddcbae5c, 0x111ab56e19274efd47392b70171dfdab0c8cef5b6de579de67f579e86b506fbd, 0x6e6b88e6f0cdf982de483aa04bb9d0fe288ee5863a6892915d125eaed786b4, 0x29bc59d6fba6d692e2a5e85ba50d6fd9bcfccc57e2bcbdddd65881af445fff84, 0x261d13ac441b2f30096c1f7f66a6d973244c2c070211275a37d49b1d70340edd, 0x77f8d9273ffda37ed1ea683f69349715f95986d26163f00d41c9e3c366ccbfc, 0x1678f9fc6c4502c235267f4b841d9543208542355ed7db420a609acb8e8ebdce, 0x1a65b41dc302b906fd144a594bea6d909f72fb707500b270837c9a249590075b, 0x265359bf0ead777264d18dbb4c4664301a23b10579368f40b433710b97f807a9, 0x2e944ce0eb653745a45632c070b931d08ecc4973ea091e5dc67125cc9045e41e, 0x27e3025a2d3e82614a4dd0550f59359f5643b86835926aed2eb0a7aa4f06219a, 0xd9848e0d3b8bc8d43e5e6954e6f0181986e575054840f238cab4cb5b03fffc2, 0x1ac3aad815d8ec13b035decf67a685496a87b104bf57ef38cda855877fca7c75, 0xc910186f912eef95fd673ead2281ffd0d5ce9c80cc51f6f931d0c75b9c0a3af, 0x248b63a76a024d5cf2e42a1bf70a954f01b1849dac31fd545a7cd74c5c3a1e54, 0x1a71fba60cd363b0be3ea3604a386cd1df466b5e69f93503858c69f5a868695e, 0x15a2869b6363cd02a472cbcec5c91bfa17242cedeab83084f0eedf28343178b1, 0x2813c10731f7694540eacde857786ab2443fb1891619243b8d4d9a529a733548, 0x2aa96905ef42bc1e8452087fe13dc3d55ce94062936fde48fc29f8698ed5ec50, 0xf093d369fad0a0d255bfc311c4a58dc98a1900cf359b3e7d9688f6591b8d384, 0x68dbbc530967765cf7c7e69b8bee4ee08d486b420d5339626c8411ca984027d, 0x1dd0cab71570941ee962bd61dad1cb68a8ed8022adff356a67fcab3a6eaf5aee, 0x29a857f084ae7f2b506efd6cfb0672d63ae960cd1979f78d7f55d78259553777, 0x2081f7713f51b3930dfa0a6df8e83611bc8829cd1f8471b7e2e17f480d853c33, 0x2eea374a60ab1a20648cb908e605c6d8599ba601538635c8ccee00cabc85727b, 0x1a1b68bd2951131e6d71952233647e4165bc412da6d99c2197aa397d8d3ee5ba, 0x1defdf14415a78d5e6f287ae6e49ebb11822b8734c9df91c80e08de57b2d4f2b, 0x10040cc4fd20bacca69e26287138be4dac94040cc6224e2bfdc76661106a7249, 0x20ce67f32e823b988011d0c33abb0f725be96fc9ab5b2eb71012f5f80a55ff40, 0x202ecd50c82c9e1c79f0fe136518b22551c058c21b6eece43585bcd28cc4ea87, 0x10fba50c060fceb989d7536c3692f0c3243338210d145d6187926798b747087d, 0x2680936e402765dd6ccfdfe2dea719d3c507a7c551123c0f9dd59a58bf8dcb5, 0x102beb4a5c4c903eaef9ecb0d5794154620d7e9de84364fe0583be79b4de7cfb, 0x8d01db18faecd1a26c285be65414bf18ab012d7efb2675f4ae1d6f5e1370622, 0x112fe5d217f33c2d2d19762d286841366ba782b4bddfa33bda836fa2de419010, 0x64885f457cfafe6ece2944a9a935efdc717affcb4449ceb31a2792d5eea6765, 0xbbdc371ab6d4296e73ed2078b99fa47d00c44cf51eec0ad4ad0aab9c09cd886, 0xb9e59b699aa688dd12143e890b6fd0e34800d6b440f5f6b6c426b30ad078887, 0xa5aa31d4fab8e109b0fdfc55eb14a5c2d9267d7f986b610170ce5543bfb30b7, 0x3239d50b4a0128e39c7673f2f99d88b5903eb1bb7704c6c0cdd4c31408a7a6b, 0x11a6945949a182759b6f1da60eadaf2c730cce66ea046f8f5eb781e7c45f8c9d, 0xc502ff1bed8a68726803e222b87d59074956d834f2d63817f2a9efed3dc931e, 0x222d9daa384ae2b40e43e274cc07d2dbb9eb6988d03894b6fbf51336634c917e, 0x1df8fe0dda8e51971b917b0ff0f3e05ed4b00c09545351a1177805c50f6bc009, 0x222bb8290405c5b3373f1b199969c6d0f9ba8eb772f2497c55c0f551775b2635, 0x7902bec23d9f91a003a928eaaff9647ac030289dd5eacd8cafdd31b93264d10, 0x2c706f059d6a86ea496c2e4693d1717e4098ff87d05a82d738fd8883a82b9d5e, 0x5ae261694bee2446a1813608edec696f252922d33e94280aa805bfd843786f5, 0x186ee2ca779c5c26a193adf0ff47d9f333b750f99b77655011c64b3e8ccdf93d, 0x1c2ab6e96f68e3b2cce6da3465b19e3e4a437b1f209c55e6ef99a1ac0736bd11, 0x2fd17db7e1827169c32ccfc0ad14d9f97c7507f8ef88dc5d6f04b02203c37e55, 0x241fad7570628418ab9748ced53646c2e100aeebd62a6c73804f080de66d9720, 0x16b5b53403ee6f47e6100c2778ca970b40af6be277e98b71032f894e6f6a2f, 0xa095842f718e71645b2e81c90b3f0857c8c935b135b0cb25df1541d38c7ff, 0x303f2ba04eedf1425b5d7cc4be2c5088b9d2ef2bf478b9e9b8ce6ff1668909bd, 0x1494435142c96fc94e8d66d9b643e019163c6ac2e4e162056fa8feee51956667, 0x31cdbb9ad28ec57c4e1ac8ff66c791d04b25a28abcadae83a5573e3f3d4bfea, 0xc787dff012f136b89ce3516c1cf867928d7107d218d62d51b0b2d8cc9850498, 0xb20b314907f522e17a9d5da8c10fcf88cb956556cf077457c1e4a9ad5dc0b0d, 0x11d5cadfd04189c6c14a49e8ba6783540adc7ed70bf25afe25df9e2ffd9bc35f, 0x852309d50f14538c8b7d35658d89ba30e29aab6626531aaa1185ff0cab8a1ff, 0x257395e7c190b3cdce5f934dbea907705008a30593c69293fd7105622602604a, 0xaae37af5c3a542202935f590b667f979fb414273cc87931610a4b3144aebfb7, 0x1c1654a77feafcd7feeba94c32605f95ded03e13c08a6274c47edb41134e2444, 0x1480cc4cb3b9d9fc97b99e340fec19823dcd2edf198f7095ee5c70a9200995e0, 0x18711057869189126f88536accea4882a34797a9dd96a94cc87b8ea462417655, 0xe9c4735ee797b9c70833a7a6be7c2cfcb962f070caaa649466fdf9bbe5828cd, 0x2e2e38ccea7ef6c29a922b027d31d9870ac0f9d27de19d70039bbd1f90ff74fc, 0x1d66369e95c2e76030e380d6538a93278f91ea5dd60e5a316b3dced27fc137a3, 0x29ef9102b5e671edc05f87bcceb6d900484e7ee7402a32ccc77fde2e7866a083, 0x2103b04c1735f7511eb775c7334a0bb6d626fb60937ba3761dad73a84478e3dd, 0xdd1b6ba84a3c29b62923765068cf63c711bc1d6bb28eefe38a0e4861ad13963, 0x1eab4c7faabec58ab9b73b2baaf21e42880b77b0f0dfd30d38e1c955e9dd721b, 0x2e1a3f669dfc929b9cc84d96d489ece114d5be5db8571469f774cf6f6c8022, 0x1214ca424ea151785150d7db57b93cc6bbc8d75d1929938460a7c67f0c791f11, 0x2e174dd4aafff6103164d9165ff8319d9260c86218510a4d910341f0b4e01d38, 0x20b32f4a423617fef146da5f1a2695fcff6497ffaba30decf6ffe62ae952c435, 0x29f4dd468db0873491468b7009dbafc79951f3b83ab64efb8dd2e56cc9b31a8e, 0x2519801de4e58e4164f7f0d86994311c87f279a38afc4cb3c4d26cf41c642af0, 0x2ca123faf875de4eaad80eba73cb2a00f22eaf5b6109ef41a65d2d286f602cc1, 0xefed651a61fa30b70937bde9d02b9b6a302a1aab706687b2233ae9b20331267, 0x13e21dbbfd7e5526bdc5075e73dee0aef45a0ed2c880b29b7dbd5c9e6439ee3f, 0x2c2486d85aadbc358b1065dd7b14957e8cf5bf7451afcb394659741cf6be5821, 0x2c97a5d5b9751943bc11e04c2d60a56c43d945b96b0982c8a3f5e63b73550d6b, 0xd3876b0553694380adc086cc9272e1770e2f86b336ff78040419e5edccd8cf5, 0x12365c7cdd616d258f9ae3504b37d44e958c816a0bba374278e8b7ad79ab9679, 0x1b60354d16b01843540b8fc6961ff84a58ebe5e42b46d22aeb618e2db4ade65f, 0x3778fc723ccd03ad8c90c311c141963dea639d2524ad972d8496d129e1c2434, 0x2ee721dde852879e1238cb7a79207147b3d864e6c8a14a327e2e558b9df57662, 0x11020d0581ff8e79c8f5aa4d50be2dc792a038bcb61aec4ccea2ec4df2d0af4c, 0x1e0e921193e35b3c42ded003dcbbed8eae46712e15e63aec715f3f7031cf4f8f, 0x2a6c13d7afd6636c2d4d5d36f42c09ac3286b67703ac4d2c24dcf5a3add9020d, 0x27bddedea7d8d398b4b6e9152e17c2d092217609b109c14574f932bb02c88440, 0x2e13f9cbc356728e6d2b7a5c593aa9ecc9b900bb98901593d021d61eba6555a3, 0x109af33773e416156885bab0513dc199a0045d405d81bd2a151690bdafba3b66, 0xbf7a121a985d20eebebf624f3837307415ae480954bf49552dd8c5f3e50301a, 0xf78ba7c3e6d15d11292dd121aad459483271b5fe2ee56a63814d5db19290567, 0x1625df035eaa992f424ddc6dc88c1b700ac5e6d5981e2ad0df9b290a56bd5001, 0x1ac7d1f33bb598fe9581ac73b0aad4e9ace99ead01981fcf2c502a71afd56762, 0x2d37296ef0cd5676d0809608ba340cd7b202e2e1c2546d989417d303ec319337, 0x19caa62c5238e03ecdf75bb2c276be1805be3fe44a957d8aa3bf07cacf1c114, 0xf32dea104320ce0f00919d90f9c6c76d496882791146c522a8acaceae3e4a48, 0x2ce5d2452c0a5a9fb65a4a6482f34998865be9a29f266f88a8affa850f5ec6e5, 0x135d590de80a0e717da7325c781aa167a25e5c310d92df83120e891cced24a8b, 0x1d3ce96a7cd79e94492e32b8983d62fac736499850722f7fe7dd1589706ab693, 0xea3a1e1f5dca3ff7d8671f2fecfb467f6a4e6516c8038a9306b36dc818321b2, 0x1ed08c4f0e16d144059100f05fb463098e3d869f342e0ef8b4a47afe74a83a25, 0xadf612bc0c24e826135c7de0dba90fbe1bd249f7424f1970b52e8bb24d986ed, 0x240c424a024e59bea3a14fca73d7b63869eb9b68746ad9c356b93fb6eaa3e22b, 0x24dfab7238b05bf08f66fbe599763f63d5c70a181a7e9fe35daf0479e2b1cbd4, 0x160d79a03959c968dafb76ea3e08ffd2ce117d094e820d5e9f7ce1debd3bb08c, 0x1b65216187a1ca1679642d4c40aa05bff725bfa50248aa89d57f570c2fe9345a, 0x243503bad8adaf14a8e565013863c13a77f6f7a0fff571c1275b18f54bd77351, 0x6c2ad47bf4de574cacfba515d18ddaf782a8addfad1c18ee4391163c541a62c, 0x214366673d387148578fef89434bcfc7e0ce4eb08661904026b30ba10f3a1341, 0x1db81d98b4d4d83226ae4131301c8e3622a32e2b7884860e85257f5f7b7e6de4, 0x29d2bdbc19896e8faf0ce15d7c883bcbfaa38861d7c92299a6bef42f7c443f0f, 0x19295f72c5907e8d9f8d8cdecf7d193fa86404cbb7a85522f7fc33857b7a9c88, 0xbf015760770cbe8e6f69080f3aca18258f2cd092e33d3ed62d8d19d144baca8, 0x6cb21aac0be8dc2528c3974724b38d73a918530976ff118d08764cd42e0b240, 0x1276fe2c751ba49fd5b75cab5b71f64aa0588ede807db1bd583c3d6ae6941356, 0x2a17fd8041ecd762f528d12067a09204f9296ea57374806c39896fe9499b98cf, 0x1904e2bf9c0512c72559e71e3f132f65259058f7d68b9d7d6da1a8f9f5caf674, 0x115b5eb99233a8a2200170733c4743b804c601b5d8d4656a138212d66eb89d38, 0x6b58885f0e09be6ba91176fc8a6172bc16d680f888a3d92f31a3bf213e7ef8, 0x13c6704e90535352934dcdc0483b4bb974d50beb7a5b6be30af0e46fbd7325ce, 0xfbbcb96ccaf43c773ba1ce70613892543732feccc872975b8eb73e3fb4d54a5, 0x59b4df63dbd2bb66e0b2a826c5cbda96c338fcc38dbf9e9c46041918bdd8bfc, 0x27d859e7868c99d80f99d181e6ef7ea93a694623a89bbe57a6c8e7ee54be21fe, 0x21eaced08f9d0b42c6fa51f59d65f96598e9ca50d6cd1dd49b84fdc0646ed68f, 0x6815b7a3b80971d05fde6d7dc5cd2823363f38d0af5c0ff8abeaa71a323a2a7, 0x6a778d29aabebb5a3cd940b1c33f05551217b6005248e0e716bd5a10d558c6f, 0x14fe9fb1f167c6257ea010088115769e62b60ef3add0f3a22c9fe7a4918e94c7, 0x90305dff314174e27edebe574bd8f0c8fd85843e7d2627db607b2816e357dc1, 0x2ce23dfbeb8e1874b9ba894cb85f068bfb0497555cfd3dfaf3888aa492d20445, 0x1b0fd94dd9cfe774d9146be584ed0b25cb2c7495a708247f5763c2380e5c1cd5, 0x60bb716ba723a4e5f5faa179363a36774619d1e0cd91bf4789a1aadb3e612aa, 0x43b10c508e8681843eddc05e73b95b7f54da5a93b701cba4d6822f9c9dcf436, 0x126734e9502ba9fae4a314b67ade6ce8890e304a430e6c9f4fd60cb8ad69950d, 0x26edd35db97c2ab2ce27b503592859b4317a25a688f9743ef0dd9cc2619db7e7, 0x27b225e4a981af36cea863f591c8bc5aa95a4beb6d5c9abc5e03ba906ed72062, 0x1102728832f751c313ac6610fae58b9cbd511b51d6121b3bfa60f47db12518da, 0x18276cb011bdc6d75eb1c7d5d06cce10c7c9079c8c9920fa389b116620ee4141, 0x2502d7dece8cd7d7a04a1730bfd2868fc64f835dfe143cee18480c7c3fcada76, 0x6b20beaa575dd846254695068484611bbee1ae48285ba2c3d99c14e62581a2c, 0x63ab4a078fcb212275ff5fd06042bdbd17aceae994e2c27a1ba876139f8ec1a, 0x6372d5952bb69a460bf1333ef4ac6b20b07ad4ab4124dd4066a6cf66f406993, 0xf41d4e3ef55da71cf4037c49d44c0a641f52a5a174f7abec522476e3c623ce0, 0xf0ee9841b21b9b223c1d1a906993bd66b0ebcb7dafbe2b802bb8165c6011773, 0x1df2eb2fa423f01396e073390104cad8004a6a5f140a2b18ed658068167521a, 0x1ce05bc55407c883a5a41792ef3486ff22e403d38474cfa90f5ed30c8d30198c, 0x37f1fc7934bbd5fdc34388bfbd0f95467254e5df2b5b62caed0500a2594ddad, 0x1bd6a614004398f329b7080ffe69d3dff6de06c819fedea24aed16e4c47164e7, 0xfc2e5cff7e9efd46fee62aa3b3f22bcc9f1a3bd8917e2e1cf5aa334d29d2a06, 0x274fa4e3d86e7ef8b0fdf1a81acce8f9ed2f2eb4627de75781a813f106a377e7, 0x193af1c5fa057ce682ec728cea90735935a22b5aff46ea2f803a29421aa950d6, 0xe72c33ed6055471adad61d027c5ac1bf75444fc4e14988b42268f0787e29875, 0x1c75804a4ef1c81c83684d688c4429ab1a7e517dfc602c9a2443c59f32ee9614, 0x8803f69d83e0c3397e09dd47a80cf9f4e423437008cabad2e50110456c8c60d, 0x2d1214ed17bf81162a5dd43a3fdcf195fbf47426044cb22db538478e942b07e6, 0xc85b24b79ab57504422135fb1cb0c5e1e3a5f0a06103c2486ee6a3eefac7288, 0x2e29f517dd1b30b791bfab03ce747f950202f0eb8267ef3f71ccec40e91d95e6, 0x13281c94a670fe5ab09773af42606740503509efd74c1ed993bc6afaf3d64174, 0x21a211407cef7b0442160acc9dbfce1a1e1d58c9e98f381a7eb48f7bda0f1e05, 0x85ef1e77f929bcffad1a93f920c1d8c8b3632e1e1a1ccd4ecb01602759e087e, 0x2b6f796de3509ea703c8da6276e3ea154b504170c59a8ec4581e9757d74ba759, 0x1fda5074fa5bae5e16fb4f2d18d589a7230b9a1c1e4d08a8069fc8d45b1de3cd, 0x2d22a3c0d324750d3be31219af32a8282c372dfde4861ef86ef15c3155dcf14, 0xc21f4f4bdae07a79bb3a98cfb351aa629f3239c4d24aef92ea79bfac9c2fa25, 0x1b721ec1c1df81c83acd7a95ace16b3e2ff4297aabb6f58100b5dab06d3dc404, 0x27ec9e9e923edee58189d6c7f303ee3e5249c5aef78758c7f511cf87b953561f, 0x1ecf1060366dea9506fda0d01cba016db9620090a160d5a760a75d12d5d72e78, 0x25d432df312e005c69a06a1f004ec899575034da26392760d17acc80c39506cd, 0x17a0ea51f9a201ba2a0f857c9969a7f6bc6f5d5bc0e4957e1c0dfe4b202e4a24, 0x2d34c47b847d67c9b4dc313bc714ff223ab01127806ff6c922d8763f142024b, 0x20e59e5e5bb0951a660122fc1aefea294e7ccd5f9c79839282ebd9e119f96ca, 0x249c9c850173dba0ffea3568c28416020121c3d9990dfe2e917377467759267b, 0x1e8ec57b7681d631a02d530c9aeef93775869ef093de92014cdf85ee2d459da, 0xf739dcb9f3ee6e7b5519774b540b2898bb6cba3629bb6c60e423b7eb6b5ffc, 0xe016f0724fff85d781aeb1548d76c566e5c26aa7996edf504e4167285fda66e, 0x275270828b9ddc964bb8d68a6258543568c844947ed5ed94b3180cb874c68325, 0xf1ca3fc28aacb8ac21a5b44bbeb0ae64cc339de13e04c74fce820f4f93e48d, 0x216b2f89c90105f570e0911bd1ce20e0664ffe01811cb777f90376719c0e20f3, 0x1a91edf90950cb2689d2c29cb22f8dea61ec41fb061f1b6002f72265694c784e, 0x2da3342eaf39a2b242713484462971afe53df55bed5f5d50d67d9138cd78fe84, 0x29f79c86f5a9c96fcaf2296be36425b72afaad4865cb9090848249158e2ea4b1, 0x519426a15a599f20d2979302067dbd1454b46539c9499c65f6195b55c760337, 0xf9c475cd72b7e2e3865e96baef89a149eacd3ab340210a9c5e0de6fc082e89d, 0x15f1d711979dfe13e45eeb9759a89f51db3d27594985890b88c9bf276922173a, 0x1f083ac0549a1ab00d4bc9066f05494148f60c9569e7989941c3f50fd6acf760, 0x1505ee4f79bc8187856d5f3f5a24de97aa082b8d452c63b17ac3a591451b747e, 0xf20876d712f147e2fb9f7be6a51f346ea28447df529eb41342948fc2d8f096b, 0x1696d12d9ae779c92120ee715f6b8da11ea93af2673715a2df7731db91e360dc, 0x28485f438eec133b0be36b32fae82da57fb4006bd7f5bb15a267e7746b37bad1, 0x2780436f9da12461fbe31d979656e6d1a13386e0e6a5309b050ca819e10ad945, 0x271ea863673332df2bf2471e6c8935b037ea8318ea5b32379583f611e06b3da6, 0x29f1ba4b29c1daecb9839bdc08431bcabe68391ca540f68b484a4f8e96a9dc61, 0x294f4cc728dd423fdaf37377e069aba66f4d3000f1a559bf4c449103306031e3, 0x146b521b1c08c9181213ebdbc2a34fc3efd87ddeb1bfc5e5d17ca951f55abd17, 0xdae0af973ea0b0fcdd8158ea51b9efdeed5eb664b84ef67eaa255fe4e55f3e2, 0x2604cccc370f0a50f3f726edf1242bcc131dddf2697853276c079ebfb883d8c2, 0x2873b19db1d03896d3d52d6f9361e3fdade5e7b2e6833e4d5ce4661186bbbb9f, 0xb04d090bcc4cfabfa47f60043859aeb5f33a6de205dfdf0e3d099d4a8394e08, 0x508a195c0ca583ec10156f205ca1bb6f6917318b8ed6ebb7347b77d72dcf748, 0x9262dfa80aaa0bc61c5891c237a519d3808c53fc05dce3d71f17c0e3f2a5eeb, 0xce6d25b1c6c1b89fa005c23619d877f2ab2fde708d30923669a49fe25b3c7dc, 0x2e69685b46c8050268dbc1040e23c739d7216b2c5e76108136d6895ded3ddc44, 0x278fb3df3fe913657bccceb553138fa7b8ab6e062a5ddeadfdddd5b305ff822, 0x16da892ade35754e57d8f03f3e6f4110a9dc1639d9b6de65e479165ca49f7a4e, 0x159754924e7334854ff803a1782ffc059927a3c26dc43e661e09a1261bd7c94a, 0x2212ca6487b845ba4d16c09e224297d4b1a16e341e6c593d7fabadada3929d7a, 0x2dd088de831852d169aee1d6be69b52c5dee0b73e18fca91cdcef9b90396a047, 0x24ab42ad6749a14fe2f707ec53ac3b0315deecf421b9753032533e28491db30f, 0x2f6466e50ef3c61a0e6493b18d34911406e2e97d3551887af808d67e1ce9ae27, 0x1f5886fb8618c8711ec08de9477571f0eb6e462b8f5e5349f85631f059594480, 0x5ba34953959784a57c0019e916e2ade5d6a523110437cea9c2b94453dcdf2a0, 0x27aee67a3c6ef783cb55915165a5bbfdd86bc06c776f145048bb2401dcf17341, 0xf57efc05e9f97e7f68c694ba2b3bf216eefbd5c71710a56f460682a6ba5d5ef, 0x1d35eb4a40a41dd77506d872a458ac93d7336dcb72f15b182a6702ca53b94eef, 0x18a33064586d5a702bc4bf64f70b44b5a77918255c2dffbefc537e40bd5951ff, 0xb0ae5716e42b440b7423bd899319c880a4a674550b7bd036207e006ac7a2d21, 0x1136a0f6c004a2c57d21a00c40dec6f027b140b36d3594c1cdc1b0e8707b62f1, 0x21cec52ac4b2aa7f80f98eb75b4e0280591977d50b677b8ff10b0a3d028532ac, 0x284a636786fa63579b1541746901d48e440cf0c586f1b089cc45e8b830fad22e, 0x1d4a0aba0cac51c3261f7c483d89628d76748b0833cba6bbfcac5243e4bcb4da, 0x410a065925e90fc70ed1aaa46477a8ac8193a10c48b5d84fb5e9cf2123ae24f, 0x301453b23d055c184a65ad6a6acffd9f520637fe751ff7b769409d512fc92f0f, 0x37827104287d94bbdc06584d36d4d5e2c46c4ea224f4e0dc0c3bb541f053b79, 0x294641ba8a02768c5e3b7f542d281c69dc2c3f2e8032f864295a64b08a93d993, 0x1c12f993f0f1edd809eeefae6932e5b88738b336bbe6f976f5f7a0a178ffeab0, 0xcb2d948d38fb8e17c60ba6c67608c9ffd912e0a627eee756b8d22af8b9e5e43, 0x26f1ff731268d9bbd26ab33e588acec09fd5a4b70d60b553904f5e2d05e894c5, 0x9aef8a2029f82b76d80ad8a3926cb6e1174d8b8b89c59707c123473120b4c7d, 0x1be80cab12f4bd1737796bc770f17073c6b0046c327bcbf3a36e26406c775c74, 0x2476e7bc637f243d23d762cb3e2cd8430dad89762576cbdd918428a75828836a, 0x196d707ca5a9edcc0e3103aedfc60abdd1c9e577354d930be0d5b6d03617c209, 0x1d262487237e8503908d5375a1a798a9b8c0faccc056eddd8aa87d0a66b07d24, 0x2a21e03d41154bf3191f1a834b9af6b23d40bc01d027c2b4841fb23dc9ff715b, 0x29c647822a1ae565b2bf1249edaeba0cbb3ad730deb6d2e6618fbf9e74daad9, 0x23e1971175b8fbb26c0989dea82d8f4a3f708774c286e4ed2f8dfaedaf3db5e3, 0x1306188b792368ebda1f2e31e846854cbb34f175e01c92457959ee1c6da0ff3d, 0x127d0f7eb9804fc20ab4f8b9409834ae521645fffa86b0c221d9223fa0e9d2b2, 0x2441985bcace35a81b1f81fc6621215df0ba42441e450fc65e3519a0393b1196, 0x2df7d4eb115114544ac4f52fca36d6b33f09f639253e9e3549d5987b0e097136, 0xf6c5518f92ee2e549d31adbb4e78036ef9aa3c2164c317aca92203e3b99f940, 0x26e2cc9dea47dc6807f87cd87c531b17a7f2f5ea86ac094e5d5a22fc3433dcdc, 0x1c71e33c864b0a8de4d10dc26f76bed55771d1601a0e04d399cb2397064c5cf8, 0x2a2f0b563b4083766c8b6c60872c32eeff2b207a1981c05b1f396178f01207af, 0xc1af0bc5546250a7fddf1cbd3e7bcdbaf74ebb979535e0b343676dc9f9433ca, 0x18bdf2e7078dc40af1cbe488cb562fd32120499c4c972a6d43b92ce167ddfe5, 0x22b36859a16a8cdc3df10af2820715891f779660a1f9a25ef652019f640bef06, 0x10e697dbbc43c7ae2030f5d49974f8344d5e48ab66d635b41e7b96fbc7c6289e, 0x57deb4fe56390abbbdcd8822cab5da1207a0ad79423920622b0c4a12fef3552, 0x12b27c1639f162f846fb37ae7144f29137682ee7eb1632e791b4628aff4aac23, 0xb2c7c76d01843a2d14655c23e8091afb6f3559d66c3bbf3d115dc9d70db5af2, 0xb7d9684c0c8eca0e8c31634c9fb68b2e83abe72a3679b3678a8c9b1a13a4895, 0x13ab0a7fea9b2c828766d2fabf574248d2d7f7b2f8e60e261cef29cd916e9a2b, 0x2de3579d790ac367f66d90557b54668153a5c37d5391e92a6a5615c9d60be979, 0x1ba010b6d63b9538b281be3764e8e6231642c6a6735d89c9808fab7bada21f6e, 0x26ffdea8a8d9894ebbe02a705fb7506e12b1a7f100c5902584e4dcbe1f2119ac, 0x11ff1619a49d6abbb56390e3dbaaf0c1cb01b951a734218b3cbda4e8052ccba2, 0x260c36b80890befae89cbb3478b9f7b5b3f6b11ded47aae2c0d5e0c48d8e5174, 0x5ca88857cb0dd5f380e592aa37f6f94f7f0c3262131cef29948a1a49fd184fb, 0x18b3832a19eb7ee1a9dcf574302ee063ec19046b3b9eb7fb277a48ee8390e485, 0x2535291f03dad1e3c540e7f26201c2e330188fda58be783067698a1739f79369, 0x14f832b38a9f43af26e5ec2fabf6c4250083cf87f0ba86b95053e9182d1373e, 0x2548e6c4767c67691af55162d9ce0e45e89ea08a4232fa0a223fde869bfd3ea4, 0x23ecdaa3f942bd45ba46f528cbc81a51ce1425039f44781a7696f48d29dfbd1, 0x1611bb59a3b28756b840db3189a3a5ea22ec16845472abd68570ac771c8f15ee, 0xbf7618845013330ff465f12ca95079ab72d0ca9d8a7e633048c11bf2c46c7ad, 0x15c88fa2eba3d087fd29f6de6fd864b875662ffa438144352d684717cdcd3ccd, 0xd58d12798ab552f96f0d951e97cbeef887d858656b1f6af4010c80091b0c662, 0x406eecd7bbc21eb04fa1e565745cc65445e4f82f4a241efb8bab06eaf9c7cbc, 0x2fa88eda065714b9ae5e18456130e31bd6f48d02b2415ec61ed209ad8ddc3164, 0x1749863aeab13ca512261103eab93b43fac53df6b04022c7cb7f17638f51c29, 0x1553263a318edf34429d901f3879932b72f5c32ad56e900abf47672f86f9a62, 0x28b7a8be47c2239079a01dd6d0e57ddc03fca9c6a58d3df6f234dfe82f96aca, 0x2c489bef0fac19bb187e5f8a064e67636f34b289c2e8adc76ecbdbb5105fc1c9, 0x1ff548c6690f5227d576668fef6741f999c9914cf4842e793fd5b5194bd0c3dd, 0x3c1b551c84903040faf3d6db934e83dafc5f0efdeb7a8feb27547724727a344, 0x1ee3620e8f0dda8c6f155ce81a9376009bcef2c8d8f6f266e04b7b80ac8cf867, 0x18e45fe7ea171fb11d0c4af5338568990f22147e14421f336fe6e0bcbb8a0014, 0x27393404521a55e0e1a4e58c561180040c18682814882f45aadd131b9f08753d, 0x7ff6857011a24b20d698ad43a5f959acefff729940e346ab18f9d2600f83d05, 0x2981b3a288b4327839542c5796ce2f09af9d022a604ffad61fe0077d76748bfe, 0xdd5b0b8158e8a73995efd0b9d898d4fd3587011fa586cfe02ce800f3064033, 0x84c05fae73cbd6432e622cf9880f0d28337c6874b87b88ec0b45a55d393623d, 0x1e2ee2fee9b9bf8d3f3722e7028ff3af8e5ec6319fa6d8997dc115e5de2ea8b1, 0x3418fc5909b62b0296e6eb42aa07a971050939e99ee371f6412e44e0ef577, 0x1c4994a2d41258064376be5cf3c99887aab74803f67c12c64e65aaf7f1ef56b2, 0x413c2b38733961feda0a68493d3cf44febcd77952b8806ff583e8c40b31032e, 0x1c46ad39455255525b267b8a0533c5c66504f81ae9534bdd091ea98994997f1, 0x232fa2c090ff3ddea83adca0b9cd0e0918c9458b75b0ba3b7d677add820be289, 0x1cd5701c80a10f420eb34f534738c0dccfccb6c87ccf9aece35abab37cf05fba, 0x3b981fe0c71882c6194465537d5e402b816118aae94bf8518eb07a529e4ea54, 0x168a588900100006443658a61ca9d659f0ac451d1e0bfd5a6c6a3aee85723bea, 0x1e51f558bced240c65b7cebcdcbbdb7a9ab06e3580d46f318de84edc795e6f88, 0x1afa5a8c5fce396de56ec97dcf0317a6b7cbc3ee1f8e9a3bccd6d870022b750c, 0x1135efd63e8f8cc9cc0661dd49d36ac8ebf7900d90d66dd5fa816054d4017dca, 0x2914d21c2d2845ce2b14e951f42103599c8755015641db03c54df337103440ad, 0x20c87a2d759749aea9b2f0f8cc01452452e711e39eaf5a8b07100a197127eff6, 0xdb07920dd779c19fc1ea8ec5323d5af0d511b869db67dee0408785ed922905d, 0xd631f18fadaccbfdd3b3be46772a3bcee276378cd2e46baba90d56468cc50b6, 0x2c500f790d463fb136f2d8d4cade62296e7d7c49bce18395b3014c9fc72d005a, 0x176a9eba97635d1e59b19faa2b3325a5b1a27376a16dec7317aae4afee02bfb4, 0x1202fce1a501b88b455ca44788d55214baeb3b54e37d1cc80f3d6ec0e09d4747, 0x222948377ee9d27fc6406007e1727b566b825decb95096c9aedfa8e6453a5cbc, 0x2ec66fc27d82aab2c98eb50e67a0932210f3c6e12456269d57ea9095f41166eb, 0x2f5c233dbe3571836fdac0915ce6596fc0844fec3d0bf5a9b968ca58c45846a3, 0x13889bb59b9c07953b52f66123c8c1380e6f272426103adcefdef4dbd2865da2, 0x1cf78f25faa52c747312d09fb4e9abb4f1e55a3da349cc8dcc6dca81cf99ac3a, 0x2c0eae2866d65c97077047d0f4c43c28c8d7f36af6a9c6fe07ec89219f1cc735, 0x28b816cd8b8c98163380066d0a50d8b0e06ff1c690b81b918c7ddd08a6b7066a, 0x1d46d91669ce5be6554fc3ecee895d41fdaeee189adee381abfb75ede1488cfa, 0x1841e03b9fc527450e4470aa8f0888d9ec8599db6b0f7222dca26cd43d22bb05, 0x2d2ead7b2078b09085805c2777c90f6c55744b49a73bbef04c899313bafa0f57, 0x1830a8db342676cf7492281b4cfc7b138c55d44daae47b14fc888e5bf745095, 0x74e4ce32bd14b01fe9f6729de2a12f218fe443fb708738a860f1910bdfa4678, 0x1fad4cb140fa4d559cf9525fb24e7f17494d239af679a030e7d1b7c9cffa949d, 0x1e50c6526c7324b97b7f338752bd700ca5bd6c0efcb225260224556d76a28331, 0x2cf0359b8da1abffffd73f90758645793f5d1112fe898e8af0c61e79e673e5b, 0xa14ae497b49785ae7771f0dfef4bf41857bb2fd1f27d15c3cbc8ce3df9895cd, 0x16bfa02f57735662eac1c1f520b4b3f9c4bd26cd2792177b276068916954cd41, 0xf6fa95e0117b734579f68dc59736c7f9afd9cdd4a90e13629eeabfd84525e9b, 0x1d59cafe27bdfd78f564894300763436daf93f863c3213c1a849d1c3169ba771, 0x289e39d6a2d4bc817ab104443b89b8a608b13bbb93b3ade772a63bee300bbc3a, 0xd47edafd6a8d4651c27f6bee48e9756f5d6515af1a3a3512f59e9e3ebdcc331, 0x198d6aa9072a06de13128d7b17157f85994a10c4957262770cc4f59e6c6d332f, 0x174b80e4210f9d81be7bf70e3ab0b21de8065f7222e80cbbd3cf985d6aab0f05, 0x2d78036ba0948752ae78b1138b4b9c4b67f0d78a9c8965e1bbbfa356158532bf, 0xc1ff404599af823908f32e607564f521b75812c670543e390cb02e3087ce924, 0xa561b578f4be4c533151da1a529bc98f4940aa5b48f8c012a9c181d811b8f34, 0x2012a6ed245e48cf65030289a1cd01d26d3eb2e439bbc4f16f256adceb40bdec, 0x824422abb64b758f600c18e6b998c19d82a9ffacb95f9eff9e018d5afb30baf, 0x250a091bc91301bb1393782a7e21eea81c0bc8e68161a3a4e5e4a8a7e30964ad, 0x1a4adbc8530eace4e19696d77a06e1eedeba3dec2e44accd3acfd7fae6d076b3, 0x25a511f7b8595b12278f2b05b4ed6684ee12b1d298fce27ccd6787b5a86e26bb, 0x7df25e8f76f32d99b99dd04d927c1b2fa1903776636e38f7188d8c2b73c3a54, 0x59421ced9bb92262f97e7c7beb8135539dd66bcd6f0bd41bd124a929823f75c, 0x26e1cdacde91e112796df70dd3a479b595b8cfe7c4c95b5956ed477a07813842, 0x298083deae9e0cc40a9b60e494e44e6efe93a8e0fe21181cb1351d97fc0d954b, 0xf01fc7bf4d2f1ec8cb1af8ff17715316fc44387d515185f49a2443ad2a14ede, 0x186049573b3286b17003f9e5b27b8a36a78b8f32efbf0510d9fcc8fa7e73c5f0, 0x7335829d8e3758cbbfc4cc49b655ec758086676b4d3912da39f2ccdc4a28d14, 0x19d072d6e66aa6e034843cc3d7ca51c47df51f35dbbf4a99d34293fc3d59624, 0x2bea340a223b6665f5be6dde2eb55b40a05aae26d349a6c4af07e3458ab9be5d, 0x1b90f5c0e53409f8b573056438bd9e6395f5256fabb16006c009bcade1eecda7, 0x1932c3f3e1c4481420c603e23f16029d8b97603565f6314184776d865ba2e7e, 0x12e4e9f31be336777527af3ad443884e353552da362921074e023f14580b5e73, 0x25e7a09a55698b0c7323472b2409654ef12f2959a7656c0dcf35ad9a7926f3f1, 0x178c9238fb91fe512f6885e512e2a59b7686a34aed0fde1ddece6b1d08d422d4, 0x2b568832e6262628c31e405305f88402948b515d28861f0dfaef24921e7e352c, 0x146ca0dbfb0fbb98c162eb84b37228cfd7311e0d15d2e48def85f9d207bd175b, 0x95371673ed3ee55892e373d5ad5c760268c83df7f50d44d29d366e1d7a9373, 0x51c57cc37343989744272869cdc94c0660bfcf6ea1c1c7ae51427fb298c9db4, 0x1c8bd96ca390714a2b0079ec38e25af0fe7a69fce1620f376f770e1325aa65df, 0x1712f67e82f90446550d51c1d2e4ebb1475d6e6043a5c46eda3170839785072a, 0x1c3363715dfea957de9614b6cdea17066c385a8864dad5b43aff09c963573925, 0x2672b8adef74adb0b71c0166de766a39e5e1cae03719aed0fccfb7ff432fe916, 0x10635771a37850c2417c96b7f5fa48a98734ffa59038d8b7136cb5d0c646e1aa, 0xb16fd5ba97f28f5619f6989cf0d665e908cfe8a1fc24e5326461973d09bf0e7, 0x27df27e1618278ed22497590175692d262d4aafddfe34bf8db619c37a66068, 0x36ab8de1d7df77301d16cb576a1346fd196d25534b22667f50628769ae136ec, 0x49ab0f37ec5bcc724a3ea321a91951f90cc00afdad5ba3d5081706df5e75e6c, 0x112fe3f664849af9f494ccf3ccf0d4b8f1e4a600c29631d059bc6ec343450c49, 0x232b3e1d4715272d5f18a036c137f0c6fa56878c9aa054cc33064e2a5d30f567, 0x56c91dceace41ab131a1c59ce4a320857224a09657ed82f7141e7619a5db545, 0x144cd983cfa259516382148e290dab14ba9b5d8e6e76b84ddae2ab086e7a7952, 0x1d21aad5c6b407e6eee7d0b55aa92ce0a32a39e918bb32bc8d45c28094a634af, 0x176f60be5a21b98d3469e1339bd5c7a0a8ee84a0d34339bef675d064e6e0a466, 0x329d048658d0eefed7f3aaa9bc143b0c26636f13262176d650a1a7a2044d34b, 0xfef28f114d6420d1a288f960fd9dd40bd4a5a02d58081621711ddd2887c757b, 0x8818813ba3e9a9329254e78e00a83b360c905c7202459cfad0ab47658276a81, 0x20a128b7112994e52c4849bba8d1217f13a957bb4d0ba6a0d97cf1914b65b07, 0x980db3c7d2c8866e9ca0902c3b8e0a078585951ea4acbac245b61cf55a703af, 0x14f2bd6dc317fe19126b583da18e2d7175cfa704c5267b848a2ff9a12bb188c4, 0x11226fe9d81faa6c6a35d3a12230d63245061f2045361e757aa0c5ba7c5b3152, 0x1fc144aa275cad950ee4e3182bb87783dc45906b2e846e2703228e5d5328c1fb, 0x7858a3e15adfc14141090d972cdda3461908dbfd1c91b7e9b991760c1d47749, 0x19284489d7b53ed2549c5fc66331c71b9b31446eb3668c65d85ad094727d45e0, 0x587702c19b9737857f99cfd021f8fc6af71b428e3ae90f9f5d2ec8e7140f5d8, 0x30602b296ce2450d72b00ee8cece9f896842ff3470b98e1cba2a1b3ad87539eb, 0x2776dbec079a5034700cd9c6e21404eabf7c13fa17d065a2d69d2987a718e78e, 0x28bdd009549a97fd0c29e9c30f7af9555d864aee05ad1886fb918d371ad29e90, 0x29791a2e17dc204afe645306f584ad767f2be949aa6d061f886f21d0401aad14, 0x22a667b65908699a22edc1697324bd37ffb0f18f00c0ba7292ec8e05470fbd76, 0x200d4863b2f35a853b7d5dcdc22bcffd8f45b60bd036c2f94907d873e5d95ca2, 0x18bdccaca11c8a10a12be6f7cc96d4557dd9cdbecd5f841e87303e3a312e9e23, 0x126ff502714b58c3a40ffa3d96df0de4e8aff3543975235bf3510c7ab22d897c, 0x570fa4d1c92cf2917036fb2d477727e55b569b4a58891a07f96c500c28bbce2, 0x8c84000db8f725655f47432db3a4dde514dcf49b40fc4d301a17ce5d7228feb, 0x7212da8afb35376a4b9f93c20f7419ec704b22c898b20ebbf3ac9f1bf513038, 0x28c6bd8667a7e5336ebb7e53c724990fc8af6a059390353bee16d8c8dba971e0, 0x1790e7a8c59ebbdce18ea7b9be261b8848a8f5c69b3cd7a7b63a1b1e6d4c926, 0x9ce10751c2b7b90bce0d62e8fcb29fd3c8a0d286e93411fc66588a70a14a4fe, 0x203ec579417ebd5f056e1346a8c5be34cda66c9901fbb0bc27b8d773de7f665f, 0x2297981100bfd0bdbc495572aae5ed5676ecf2b693e33913b8fcffe65f57f4cf, 0xe3fff36bb554a017f94e88130957a975d343d15c0772a67ce88bb1736db3e5, 0x22214f9dc31c1766784846260971d051aeee92226b6f13e2c4678689ee1304ba, 0x1eeccaaca23a1446309ca4c3d9b7d07962dbf8bcd8b3b37218f4199281263327, 0x1bd52cf0abbd32e888d402aac0a358309bc83eb74256efa17edc1abad196bf63, 0x26cd8ce2ace79114e2ee96fc1ca3801d012345c68750009745735edfc4e29d71, 0x1dd921013e6519e29b9aa0f52cc8c02fff3ad7af6a187ef0e90635008406dd02, 0x10358e1cb8ac12e54988a64bee4f1e94921f030a6926a00d57236283ea0c0ac2, 0x1ca1168b167aa5298bff96d82356b7387ebd1d70431c30b1c0c0df81fc0408c3, 0x8d1ab2692d291aaef2e50985c869485061578a2dfc37997222c81ef301fa942, 0x2d59780dd0a00a869516c6a0b300ed06f6fc39e0f9ead60507cb24c14444899c, 0x19b30f06355690afa779693f7f99c4a470f8ab8abd6989993d489a9b17180cb2, 0x1b93c9367d56b207bb1a2f171b56208c6aa1279be2572c1a59e65345d873768d, 0x2f8b45e1e079448ade818bcb785b0c8bcaeef004d956142347a08467e1961809, 0x239af691b7d6edf2761f88deeaec665169de99399cef819dcc37b4609b6cb4e0, 0x1260bd299d9e99321561090559b3f90afed3a36f36c4d397072de293d34cf8b3],
    M = [0x1aa4d470abeaa2357079129d114bab1170944f929fc178216ad847d4430f3f27, 0xe1f4e4d26e9da5f8ee3deaf48b493610be61d7d3db1d9754feca30879adc644, 0xc298c14356a5a7f226c5a549e59184900385aafd8ea41d9746729964ef75f34, 0x19e070982d3ee675e1622ca20d13b2375e528b676706882eb8f1afe1c5045ea1, 0x333e2923992e89dee570a650125eda75a20a72e69e10863a19d17b7beea9295, 0x1944aac72bf6fbcdec04361238c3c4d9510d5f07439a1b6ff41f652990be0139, 0x27d802ad019a42fd04892ad167d9e83596a730605890401319661675736359f3, 0x2bd05a040a0987ac6bc01f67242d54b7a2c527a970ad2815b273471eb9623e73, 0x254b8126f45243f14dd8211df41fe5516b35952d56c62678c148e73cdbad3718, 0x2089c597feaa4ca9a202edfbc823763100e294c9e33000e513b2a216491d474a, 0xddeaa906cb65f3e9c9bea6344dda8db90c253c0f7f99ecef88786fefe0e5cc3, 0x1114c9120442750493d999d4dd45dbd4f3b75ab183209235396ce83d8ee9916f, 0x2e8b35a8c29e639dde8dfd49b4b347f00ee467863f6efcb355fa1534ef70783f, 0x20e6cc613ae6cb0a518425f53db1298a7f8859ee20aad08320d0a4f9bbfe8512, 0x2420dd1281fc0dfac176a752d15906b55f137b9cc320d5d5daa9df3f3d43d3e6, 0x17bd4f2726748d99925af9a2f2929e231c1869428c13b1e397bb0099191723a3, 0x270712f18b1518fafe093660f492cdbc2fb70ffab31d8a4d8a1934be68792369, 0x107cfefa1e864045a668396526ed9f675b2bbf272ca635d8d3e8801099bb97d0, 0x4b96a296a35acf415929b8784b6bba64a630d29dff28b628fc98ef708230b57, 0x1f0465a9c133a1c6805d705be6b3ea9912a2d062c34dbef92de46955b83e7bd9, 0x27a2b7f5549e5eedb90105c0f8e20f0571ab7af0801f1bdd23eaad91f2229a13, 0x31b0afb7ab2f1d241f882178f7dcdad48591cc67905d651dbcafce94b14d073, 0x22e0323bbbdace5fbc74a0b3dedea6e1e3bf10e84dfc71fe395089ac197af744, 0x1eef36d62f3f864eae67c63324e47a6344e33a2d5bfb82f05bef9900c54e745a, 0x2bfc3981a249aeaaec4ab9001727d32d4e6fe75598ee964fc85cf30d50df584b, 0x21630ec3f236ed219f73cc617b9f8b267dbee99a63c528544ea31b27cde49fb, 0x28890a03199b727fede5ed0090ed69494c053c97930fbb6c52358b0d7d104c16, 0x1b80f3f439396c2f466b8e9b25765a014970455a1beaed7a6fa308dac75fb582, 0x2a4bbad245a33e5d9701537f751410e4ff297b8f1d1d9098fe9c518c261a1b0a, 0x1e431f2b1b7edae4f8cbb5d307bf5131c352c2a215a870d739617f4b017c6d16, 0x255639889a259ebe59f74a8fdf2efce7fde1e3a666b35d8e6ec601d4d0b22689, 0x2d0d8a814cfa16c2323f174be2dcbe0c295829fc59bf2a89f13b4ead0eb056a8, 0x16060a17e1b11f851ceab20464572b3d78d582ea050014843101485f65ab723d, 0x2741203d66c523c7639ea713b20346119c961cc1e9659a458af74cbee16d71bf, 0x2208c5004806c7aaf58314590bcbea16168fe62ec0497afc6bdd2938c12d9a23, 0x1c01f6db435dc4885eef9cdfed193250b9d3eb4cee366674b07bdd194ff349fd, 0x1f0e36c2cf9ac2c4388e74966d9ee7d1a0b3186916a08cfa306f6bb36d21e548, 0x199fc2be60e49e679ec2ede6cf3345dcb3b918e5b3e07c2cd8141333934e178f, 0xa38d163b8a2fa3092999c1797b1af909bd971a25a656baefbdbdfa3628e678f, 0x198949eef2b27c2b9c3d699e3fe57da3d5b509c2b670afce400aba1aaa9ed51f, 0xe73217a106c402e4c6c166cd9ef1fd2a0b16ac1cb43646bc1c726f83177770, 0x17b2092b0f634576b654c6de21a1a8d812bd4c01559fff83217129082e2b2b20, 0x2f24d609cb23720eda55fae29ec6f19902c42d8bf904fb656202736d97b2eb69, 0x2df183fe2bc9b8b75773fa961c8d4117e582a80b656af5c58763e7024ea4189c, 0x15fe963f5bd0d92878c10a894e118018db82e63528afa4d4703e9881eda118d1, 0xaf594dc4030e8509701fbd3d8995f73126ad72a7af0fff344eee82a31ce77ff, 0xb8e857d9fb1d554f3a4ec307ad907de7a436438603af1b28d4e4ee379960ce7, 0x7ebcd25a10e56693a28155fcdaf7b3519d9e0e08241e21789696cb76ee06297, 0x4b959ca07e7182ca08f2351a03545bd7ab676f740b02331637ea1434c8545ec, 0x68e8e63411df2b3a9d7c567f66419a580d3ba15bbfdd1226effa3fd6bd47b3c, 0x344d0c772c2f053664a7b9266b19d48ae5d2ab3d1c1a18150754ab4b836afd3, 0x7e0cca1a35ed15fbdb619bfaecc7a9a8f4c51293927562acea8eab817c6b84b, 0x222edf3e26bf74b2f503983189201d4ee8e6d6fad341d7ff50748dd739749df6, 0x2d4308b4823b465db653d36818181209d23cd12f844f72f7548d49e55055a601, 0x2e8e67fc85f9b4d00e9e1197b35bedf55afd7300a4c370987c83c15cf73cae3c, 0x22f1bc4ec138b596128ce5ee5b8184964cc262318e17ad21d45c552477f53e61, 0xfc9cc95222f92715cf7476010225e14cc38f314071e50e0f3bc9ec674a8aacc, 0x2f5a2a0cd0cb24896c94878a8106d57e82c68dcf1e209167a45ae9cf8570fed2, 0x2cd19b5c55bab1809e52cc9fc1a038c08935da19cfc563e7048d6bd1970a0c8e, 0x24ff2986781fe40ae61e8f5ca0ef17c5a5ea7bddbc127d431547c1f6a8f5cedd, 0x12a87d0c5419f448419840e5e5a92d276ace00963d987f2a1008913d98a27114, 0xaf3ceff2c865a901b9406d5d9b2fc58833d642f46c6493ca030ef595061ec6c, 0x27f42d86842f4d8a8c3aff2f47ffc1e179f097aaecce55bba0b0fdfd5b190aa7, 0x2b6b3bc340d4119e57831e4a2187013f1216ab3b639945dd92a984943241f1d0]).* from "../poseidon"
}
