// generated by tools/gen_poseidon.py
module neptune_t17 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 17, RP = 59, IDX = 1,
    C = [0x110ba2bc11394ebdc472727c9683ed70624a37009ffed519b77bcea2c051b459, 0x62ad7a15f4d6185091512de74134492f4641ed0b53034ba4e1cce129e59c29d2, 0x59bbcd5f61ff3e4984f15316cf6b696beb8db9a09d2a0a7c21fc45b45ad65987, 0x124731ffadc7b1cc3af362c63d708c7213c5f1ea35350fa6939c7519fd211882, 0xf88182800cad7c1520656039b3e00d42c0506f2936f5477e9e6907bb4bab6ef, 0x6bd67c6ba65537a65604a0d1d1d9fd4ebef0327ea2b949b3bcf4d580752c0120, 0x4b5e6be7accb9db0c3753b027046efc2717316a99e81505be4acbec6a2d1c655, 0x2a99f539538c208858abbaa5c8e13969e352a08b7390c2124d5b30ffeaac5288, 0x2f50263ec31a8d71c5f0c9ecaa7426e807a136bb2db204232e97a167c5fb0b6, 0x29daffff04bbf2882d5ec04ad0d420e8088e43b20e2399a2c7ba2886a9f90efd, 0x129e2aee6383436f0dc0743c4717c6cecc19c447fbc697be2be6ca39808f3aaf, 0x593218fe9b23bac870a4adeff132761db1d3b351989ac0f0ec1caa624fab8973, 0x1d81e3c32b2fd9d0750057ecf0621167f32528c4378cb39447dd58615f77f37, 0x307c718af20f562c8653cbd398c3ae0866370cac38099c5d3be10dbd510d5aa4, 0x12f5ceff1a6a2509df445f4ad5f003b124919baff15a96ee7be93b9baab50eef, 0x3d8afb5a22159ac2dd84d2f22a6c363b2818e28c16249954fdbc5f5031f7f415, 0x708cf78ca5cbfe6a54860e0b4e86000914e00c6ebcaa548e35469019a46c79de, 0x3a56ae7bf9ced48b2acde15fec160f71f678a28badabf5fc776d3fd6a65fcfee, 0x3d9eca84a89d5c32096d8c4f8e3362d72b862ecde1747bc8961c6904a19ef0b8, 0xd617c2bb84fff519552d954d984eaadeec8441f9a551e8e33a4815daed7ad5b, 0x620cc5d230120d9a2fb646db25d45e3e02fc5e4fd7d13615cb75e59f0ed12bc2, 0xb9514f9ee5522a12eb90350472bc7f761456b06f3d4f3fc196107994b48683e, 0x16db9495a89224ab900af182bead272dce55ba46e3ba42c1d0bf88aa52f427fb, 0x3a3d9ae73158afa99be41b582571c06ebccf3ed7e3b8f050471532c72fa7ba12, 0x46953546d2c04fce9f2317653fcdc79569f1b3f1be9eaafae2f5e103b92d685a, 0x46f147e3592d060a62e8c2e842f5f93f75710cdeade1ccc757b79187a0e24297, 0x694b8568d4b2a55d3ced23d8fb315003406657841e52a03f53065ec51a3fd0e7, 0x52651ec2d97b82c21100465c01de9863337748c9c91030a04929e272715e8269, 0x36566a2f5cdf38dd7e3365a9f41dfa05e3ef97a7114ed91c39f7af8638cd1c72, 0x4aaa3fe07eb14ae2f47242c95e45704de72485555ee1f9bafa28d74dbf789598, 0x2cf25d78f5fd8e22ba32e070ec10f02eee570254c46e1296cd9c948b08b0a7b3, 0x3054504b038cf8cbe54647887c3f6aa985e32698462b9346055f0df33c795a24, 0x45cdbf1fa0d62c4651cdac0386f57345e79e0476031ecf6a6fd18e869c1b165e, 0x2e0ed68b7fc19452d6122bff7d8ccfa8198a266af77087c071495ca2dd5b0919, 0x53fdd60689346360f90504ab6cb4c0fe28cc4e70f47dee59d65ab2be64c2ce97, 0x1eae3c1f568e3638a3a1e06895edf46d7d11e543e764beaa434fc69eb9b9ac15, 0x5f9dac43b7f7ebbb48916e7abbd43336a961c906d25227961fce007866b282fa, 0x55c808ea807800597dc2c04dca56aef07c453b941be29087446470a114f85545, 0x463cd991c8c3587225fe2e5577d82c71ad817a750a413d7796cc3de3b1f788de, 0x5ac191f34f728ea13e06488dc183c1fdaf9d971d704134562855cff532b8e110, 0x37dd0d59ad2bc687eec07d6b4789dd46dec48d0c280aec30cc9a2d2fff949cb2, 0x4b3b33ad91c7203b114a2129cdf3cb193d3bf4baea01c1b9df72455c27ade213, 0x6e69d619f6287a17be974d70246388e540838d200a6cfc914b1bd0bd6e369fec, 0x6afad75141de9708306a357227bd2b907a8ee96508e3a42cf13eb8b0da191d7a, 0x2db145f87c74b9349631ae4a17e46d8478de6725aa1051761a4ed801bf78f87f, 0x29147770fdde8614d451770919afcc2f0fac3236ab4b3861368149fda5c9e4ad, 0x487ed8cee15b4e96b2ff022bcded34b7a8ebd5f6642364cd890602e874d83ca2, 0x4af1fc2dd32d4a90b7c240a89fd505743cd7eb57f331ac045ed7af5a4c9ef760, 0x7a045d1192f16150cde252ac22c4553f88ea6e0aeb54f106c1b80c596956d8c, 0x39273df68365e3ea83a3c5ca83156e7a462532b5b233f9fad86658e4e21d6f99, 0x615777de8546cae550f87b1f73ef9d6a14c51e7091e3c69fd9888f4b580b2f0, 0x1bebcd6eadcd5c546df1b831655a946b81b30ee4e95cefb9fed955b4196d6088, 0xbfda8a8fdec40c97a5f53986578713d8e2432e5689ab06e97b4fe0f9730d33b, 0x4d0f2a6b4c686b0c4216fd3f71528e473eb8e85955772ed1435a16324cacff7e, 0x3caa33681ff44940a6e0af7cf9be6acdff58ddfdc00c642f701024cfa14d221, 0x2fc6aa7ccd1b35e5e4c40b1efb4d5489d9e80cad3c5f0b6a2447704b6c6c7597, 0x4f7e0c6f9400d0ada9895802cef62faed827fc19981b8c84d5de8f3049168765, 0x67ef2dc7fcb75fdc7291cf3ce3ac9a3c427c1dd542f178b9ed100fee6b63587e, 0x9f41a691848e5d256f265734b7f4578d119b66a571102818eede1fd5b3cdd7b, 0x5f3f5d960cac18d10825ac3874c547f0a65c8ca27fb47b62a6fbf4994f421b25, 0x220885109d5eb2dbd36cb930697573a8f76e6276c2bb7cc4ef742b851befb5e5, 0x498f392bea25ffe0ce6c08f35cde33bda77e47de76495ef0e5dcd71998b86811, 0x63fa4635ee192ca68fbcc053205763c6e4dd0c73df3769e995dcc083886a9a0e, 0xfec432a17e88e4b7a14d1b5e6877a2064fed67a90a3e872c0af82ef7105062, 0x30b3633f63dc3d2230e63a817da5743ef4bd79d18bec5fc2647889cd81969b67, 0x5cde6dda87d8319a85bd4879d357bed72601cc6c3a91cbb44a2ccc5ac77bf88a, 0x37d7bf2b609460de30ca79e2798fbe6dbcdb7d2ad170be0bbb211350129d0ff2, 0x4c223d604593d3949bab5005bde7779ce73e9915a771a84fb0acc756d4060d20, 0x56c91e6b22d93f33efcf3210080a7cedcc0ad6db90a84278f14a24e7ad369492, 0x4c336e05dc665d0fa7b6ca14345a75e141a2a09ea191df783bf74ea9642e3a2d, 0x286d9c6b98c5b6e8d70e4b6e2772a2f04cfdc58fb996fc07529fae4fe0137cce, 0x5eee5d78009ffdde6929a3b66382709b643ba805bf7990e6f05c4e6d19e7f1ff, 0x8dcadf50b389564458f0cc4b5586f5a283fd3ddbbca934c8951ed62c5bc2744, 0x6aa5bd9e0b9852f183eae7e9729019c3609bae004bfc21158a9d9870c89526bd, 0x56e700f3b9ddcb231cbe77fdb2dd1f6beb19f4e0b0ce63601b4f430d402a2213, 0x2c3bf2d7bec9863733a149faa0f60949efec9a3ca9b343198d78d112fa7726ef, 0x1cddb5ed997c9ca444e46e3d4d741607ba67efdcf8e562932a63217863fd302, 0x2033fd422eabfe4b4208f12b40ed67c38b7d6d77c67029408b6eea0db719ea30, 0x21ed60e1928ca9496fa3724a2b91bbc728a7bc17ae5849eeb4dc3b1392f627b9, 0x1336f0ddfc634ccde42e759dcb9bc9a3189785bd30671c4a72588f86885c3e60, 0x65377a2462fe219fe7ad614c7618228de454489bcf2d8ee01edbe513f62d247a, 0x3311d754673158b33adfeb898b7781f9bd71cdf2dcd7470a93eb127d4ebad4b5, 0x4239503ba1812a026dd8817d6b6d02bbcf8134ca91869e6df6d4d907e9c4e030, 0x117f2d7423d5473c2d7eb950fc72a380cfc62465e8e6508f98c017f308bd2c37, 0x6ba1c9fb4bfa58c98c9496e5ca3e7392bbab6c9ca54b7da228a4a3a85d516ead, 0x2ed2e9a802df9a80c64f8e7efd2839fcb44d72a427a2843bf9419d03974957fb, 0x31f85ab8588b68981162e6ea2ae5c93dcb157496f28c15786731d332c677c74d, 0x4201a793c13629528fbed0b1951f3c4a19bda9de79ba609ce14be9f345cfeec2, 0x2afbe46f71073f9df4d3f529b73b5ed09760b840b6c6e54371bb7ab909225a61, 0x449a7596c78b80a394fb2303f22a8835dade902b068fec372b98bc8e5f3ea020, 0x4ed9b61c201ffb4b2cf2c8b15eafe869e6b0f130db6767daa2a178cd3835edae, 0x4243eb3d1e79c6f3c9c011c8ea0ffd5e732487df11d6f2990278ffb30b8a65c0, 0x60730c97e556bb160397b492e368fa7dc91f2da38ffce4314e5aefb466002386, 0x544e166cc284ff1fcf1e1a8498a62e7e666b2f96c37582a8bd61668b29078efa, 0xfb903f3b78ef5dbb3ce56e7257b089bce1fc2da23f87a58d4023cb9dcaff54b, 0x1c0d0c4a0ae71b18b8c9d5e91ba638a495e438237b77cb1d3175b3d1389fca74, 0x28073dcb7c5f00709c5886027df1e15304d260c051d1d046df260de48f4dbf94, 0x6f2c5fe9a81f01d66d2c9b4c6202ebf8a8ca3adf3e4fbe67d341e8507e203293, 0x1d83cb24ef4021669edd8cadd94ab8b011f5c41f894186a9ffb443ff52cc8ef1, 0x3b3d81ed77117922def857592569c50f6a4f8619e5c74789c2f6f97ef311633d, 0x383d27a8b4809bd6b97fafc7a9e7ab2bead0b2e9ac2230c780283419a55cf359, 0x163844b3c2320d7783c5affcda4c2c77a053ecccec14f75d0298628b0b108708, 0x71104b7eb7435aa49f0921195bcf3ec1ed48160c4f722ec00a1a7d06545074b8, 0x53627e0f732d0b3d8b570dd22156da077ea7fda3d8d760b3d74506f7b740b278, 0x6080acd13830f0ec0ab5188af3dd0a707b1d04ed601767615db74aa43ec71502, 0x484aa8cbe0bdf702c595c71f07601f84ea54869a028e4320053bb116bea824e0, 0x589926b29a60bbb7eff471cb65025f74e199fb48469b881b9e7e32b065f81f67, 0x4c19841fa785f204d71aa2ad3f5b016ebeb81cd9339e27debcefbf94841389e8, 0x610f239a014be701ef08938bfa46cf4f884a2839e9433c744c5484a6c9949117, 0x2ca37dfc1caceda8be5c5f19782113af1aa6587da2ce763d786e9df14a4e482a, 0x3c06af22e6767cd6a22959e4ce344a8f8075bd79bdd65c3a8350af2a69e86a59, 0xf898a4f5b19fcbef02eed4abbbc7c54b5f55b07a21aa31019ec76d78f4e0226, 0xfcbe580f1557ae14f4dfd66a60ef82edc8a6f4228ba997441b626d26feab468, 0x250818482f0a6bd0c23c601cdf33d8322f7c4399a974f8aa76324be40bde2c04, 0x454811ef6c39038cfc8ee0db248ee277a44503bb9af618806fbbcc9918d29d6e, 0x57d80f04e3c84ffa9acd4528b10ae562b704062ced68fb4af6c68e38dd64be8e, 0x35e211365f6c10e34261494ab84736a83be6e6fa4285d9bc3ded04f02a830457, 0x1142199a6cbb4352244e8e423a9dd6896866073e8a213989200071345cd276f0, 0x48fef04a10eee3c9939149f8459b3c497141e246f55c80deb022fe2caa60db44, 0xbc415419141a5cba0d21beff805028fc066330b146bdc4c53e6ad9a10a45c4b, 0x19e204e56237f62de6e4b113d98e0944876a830a53b69ebdf39134f9b4aeee37, 0x456dbcd3288c746709d4b2c00d867fc9d891e1b7d40a4d017eeabde1abd52307, 0x21059c245eb533b664319bcec2dcc600b0b04fb2bb30e997be954ac48d0c3170, 0x41d0c9ede5572684f526b3aa07f517dc8580fe54de391bd2a16a4f9207b650fd, 0x33e73162c83ed5b42a8fbfd4a00e9ef5f05bcb8370c9e72540f9d55e567f319c, 0x2f4f2e33c7e2145ffed97669413b5ecd6134d85af2125adbe87d06ede4414952, 0xd59d04c4b142d70b1f9ac64c98546664003a0f5eea4da73e45aec092d7ccc03, 0x40eb61962bd8d3deffe6d9b46da7562ddacb376eff2f8f18bc359cc5c91f5486, 0x4c631ce6391702a85dc6de9f51b11e4e525d707408c10a03d11fe13f9569ab40, 0x570504457824f633ab54b3f976dca51baed37f8e934249da4c66d9a56900f26d, 0x32363b926e85194ce99adc0b866da42aa6f53dd2f9a81eeb789e38a8e9e97d93, 0x1b1a74f78370c4c29b1092948b27007bdcb912ba35d263d75ac33b647ddb41ab, 0xe110db7b7d113dec2d811573c5e2ca0b13455d90fa0b043f9d8c500c0b4c97a, 0x1d72c0b73b84be0252e9a1cba95e77d006d59727d85bf116dcb474212fa5c70d, 0x676da509010cd6dd34c005958660e118573b2a4eaa883b80ccccb70ebb4990f0, 0x2870645312093667d0f689127f29b1c0d97e4bcba865fdb38c49bbe02ed913a5, 0x5a39717e139c6433e9002125e07b46b377bc475bc7dc9621248e133e2a5bb957, 0x2e5053e3212d1c150e39e3a17488816ecac616303d43858e80257a523218f3db, 0x5ca62e08753dc9cd8fcda0c35355458dd0a5dd6d651fc642d68893b20dea868c, 0x4f6ff67032ec6048da67e7fe59c173aa05afa780edeb917aeb68ec9133bef7a8, 0x132bfaba20fc1c40fcb5e3a125a217f0a20a42e22202eac620a52c4a18e701c7, 0x3ccab6448be0680d613008391adac6ddbdc5d1032f8f8152c31446e82278374a, 0x31f6e053599c03b7946874928e97294e649ead375444ab9ed78bebd6b8e7cf84, 0x5bcf42f2ef842d5bd71b48eb6aca337e1b2e72180b439f3638bb3e27c7c70ff5, 0x672e3e5c6eb273d1d67b64d54df570945b17db1d9ec860e02ec10e576bc6edef, 0x3aa050ed8f453b03fffb8cd2757f0524e3a418a553ba77f0520620b7a2f8fa8c, 0x2ac4448fa5fc3d8fff1c1a4f77ef5173a7a094b475ee3a88e4d441a19943c1a2, 0x153feeeaf2d90c130d770fc0349142a7d9848e0021f5fbd1330154a0a0287ec7, 0x124e551241997dacc77640e2d0dd770aa40f71a603dec304973927a2ea4a2714, 0x40a555d87c07562f1714c9cd892881ec0f9dffa59224be5d67d45136d982730c, 0x5dd0937fe1ab02e53e6e5c44757b44b20c1cf36cf384ebf6cd7af0ef5323e02a, 0x7e3343c17df282356e10c67a19c196adae26ceba896787ce5e65929c859f184, 0x562b6091a9a6871881ea286ba3ab99b134497c608b48aaea8d59fc68915083bb, 0x382ae436813ab158d06e709caa69e1afb2f765dbc1e69ee6a31b488b058e691, 0x487988abd8d79df94aad9a2b8c2f357f8ced786140003607b91f5f1e9953075, 0x580c3538d1d08b67ddeeaf8d2300f46aefc4e70975da21e071e32a530ad37a0b, 0xe05f9169ed5267101b049361aaac21367d08aac1857b54e86b0979f2081b00f, 0xc85613892c4f9d8121f9266f6224e3ec6fce74986d57746b81039cb236ff9d7, 0x2a53ae511012f363c60893701c62ad872014f039f16a09b24b1f3f36836b46bf, 0x7117e0e471e5363039e653e2452691998e0d088d721e8cb36548237a3c0176e, 0x2fe4d4cefaedf88181df451553073d5a9af00ac5b1b17a95e0a4097a5fcf9fd, 0x2e9f78ae36e9b576d2ec878ea47479db3b012564fcfa7b7398e3bb5b40ade0cd, 0x48618d80a0a4f08a802dfef83eca180a94e7c7f25640182a9f29d4a5d3c46e02, 0x68fea497f201cd39f6b557cf261df81366e571b7b521fc081ce3e5e6f57505f2, 0x59f22fd2c1e2380ff0c87ba5d5dea89054c9d150bf7dca29f64bc9653fea949c, 0x61d4cb76b81b9ab86f71280f03f1b272693999c575fefd11f3d75e3f7c4a0016, 0x525bec3e84df6de1c5b5a443da0afea5d196c11536cece666abca470246cf6c4, 0x120e12165d1bfa61fa77f35a0b9b686da251ba6cf42a468e589f73bbd449320b, 0x750c62d038f59332b3723f05dd99409b65bf6a0010b4f6e1e2f4cf21f9db79a, 0x1219981a2ecd9be91297c77f0f8bf11d73eedba6bf19fa7df600fd506e714852, 0x3b36412251e87fbe9503d93825415a7cc587aec3102dc78144aad7c3aad2a11, 0x371544286e2c2c5f643f223a95d806c2539e9ace60150d5478019109b4f2ae24, 0x3e3a9d61956c2dbabdf21a29283a7777b4343bfcf033d5661613ff422c41f23b, 0x5e5fb260f6315135989c0ac86287cbafeba0b657f79bcdc48722f0899cfb3c42, 0x6d332079d8370b98790b88b68db373ed8ce79ce15a59d18395f3431e45f4d8b, 0x3c4260acd4762091f17c5b79acfc71b0736a17b7098c064a03caa1f3dce24080, 0x20753493616b1a718813b3d2ce448a95a110f5656ab026d5386522ba557a19be, 0x32dc395707bb39c4bbcbbbee92a63927ec408e2c9744d6ffdf8beddfed4b132c, 0x31e1d0d8b1389569e9f2280ac1e5860c649cad52c0d21f489f6e116c1609b01e, 0x3fd7d0a6a561e462150f31a8e3f4fedcae8f575f756d82d0f1bfe55c738b2288, 0x4ae5a2f9acc2186ce61ae300dd6722400be442abc0a830c0d736cb67ad76b8d3, 0xb41f4af5245c9049308b042b7a35e1534758e2ad84ae1dad3ce1c2c6f778a8, 0x6cadb19986bc456f20e888093d5218ac7e93840a529a68ef82843a0d5cc6ea5d, 0x7009b06338c9632a8412f4ffe4af92bf5dc51e465aca0c09ae3c84d867457013, 0x1ed5d31ff7d1438506c008bf3a8ffc43071c88afffcf8a44ea72aa356cd1547, 0x4a9fb29fb21aba2189665ddbceabbe4e79536a5121a670f21726e92fe66e1620, 0x5cc71c5ab68bea2fd5627dd457185c8b9ada0d564499741fb68f7cebbca52ebf, 0x32882eb67bb9beedec3c11983996000afe6999bf0aabf943b913526fbea432dd, 0x38b564448d39477b8cd130dea531bcad828a19cd787ba77e884495aec727fa78, 0x5ae464dae60aa8b226360611d19e7cacad0f7397654102fc1c9d1dcdab6bcfb9, 0x2733daa2b74938eb58dde7fc6f257583a5993e3fab411e9f04469f2d8ea3ce84, 0x41f5dc4f71337b2757119e3b50435786681f58b0bc3ae86e17e52de6d4c2d121, 0x12cd7d9372a689d816da78d3f56d0dc90b7b900f5f1f74d980ba1b2cf00512f, 0x2203b5fb612e708e563a35c2ff0abc0bbb2ca470ced5122cbe41c10380d2a0e0, 0xf3485cbf01e5dee92cd4296ce1d72d659f48359fdc882cb2fe5e8ecb0bb34c0, 0x4dc7bd3973f7d10d4a1569a5e2a843f89fdf954a9d83292c6939eb0f29d15cc1, 0x42836b7c4297f1d5afb293df825b6a65268aa30ec2b14ecdf53528cb7a1aee2c, 0x4254520e2cbfddb432bb4648f3c3238a9b003d674affb4f9708848485efc1a84, 0x4e6c1d2c7d2e5f800d72f6fb95b5039222464620dbc2792c7afd51d3a2af6abf, 0x26c2e7286d9bfe8e8c2185619a1e385b3072f145666ad3d63127a90aedd7c69a, 0x35cfe338d1ffd969da406c4be2cee32912923da8629675c99d10bb6475f85921, 0x51b1a1177d5ac4ab4a1580feff6b7eaaee0ca3ccdd5d8686792a766a58ab67b0, 0x4df35454d55eb7cd554f4e0f852985e1245fbaabe06405fe6ce32a08ac3e7935, 0x33c430ad6ff9613f25ab3c3076bd1d510c579fc1e21976afe4c81e7fab580db0, 0x2be4ab114a406cf74d7a73c20125046bd9760d3ab9bb453c4526087180605844, 0x1117641e406a098ed557fe577754e41f5f3d71effba1236c4e427d2b1db37eb6, 0x2884cb81e00962f6a3470869c396465708e3d86b7672b0914e0cedfcb7a8ab82, 0x5d71017bca74371a145fedbc21904455abb4bd8868fb58150642b795be268cf8, 0x357ec93479600c3a46b129744b2b8f431c7818aa452bf1c01426595e9d7285ed, 0x6aa6afeaa4812ae8549750d75fa19ffd34e1fe2f9932c98faa12c241586767a9, 0x65dc547b66893ff396d0eb035c61e3264a55861b16f78d54950cdd8dc36722ec, 0x58ae64d32fd2da02eef281dc308dd5c378ab172abb87cb3d487989509d161760, 0x61b26ba592d638a564899bcb4bb5569fa84b7397fcd8b0a6791a37b1ea916dac, 0x12a3bc2d32be4a35e7a9504c43eea85b03f0a6cbe3e6abe0cb0b8591b2ed28e, 0x193e116692a7179d806101044417d683e4cb957c5971a6f10a79318955a7a20b, 0x59fc704d2b499250789485b82ae1f1989cfe5c15cad5f3bf8e46d06976953f2c, 0x24f97671be5f10f994bebea9d572a296a58146cebab5917511c2b17e3863751, 0x658415dd7d9a6fa0faecd43a8c79b8b094fb141170194cfa4a9868712964b1ec, 0x285c22cf1b0308f4523da4728f6689a147f8b8b43a12aaf0a61afb7f228bdee7, 0x1d12f4aa7889f1700cb8876b924e51cd1544e330822a65744436f3e35667115c, 0x1d554fd3b8a1dcb2f4eafd4898a19882c5fb4c92d2538cbd9a6e093e334468d3, 0x6363078a691aa79550d5615ca80ed93df1feb3261d2da4db430a59bb15aeca7c, 0x7759022849ea5e01627daadeef09e2b951dbf6d6c9c93b9227d7d8f3af5e97c, 0x338b712f7a7d8cb9e4813f9bab960d0a222f11dea621469622654099a530ddf, 0x2c89aad1472b85abafc769137e4628ad7b788bbd0999d12ad381d16840d630e9, 0x292c1764581d1a01b2b0c5001ce3bece6e7047b3f5c4e6c9bd9e1f59d8e87c2, 0x31841a515a133799cd99d0f8b8bf483e4d15c977bea30442d4a9801c96e877e5, 0x419b9e4e32996582205701285f957321fe1ae81477d4ef839646c3f9926973e9, 0x240eaaaf928fda39379b804330fb94c54794a4b6a528e24ea4067d176733e8, 0x528f30c873106fd4b9a9f015081bfb16591e83915ecc33adec14e24ffd49b5e5, 0x2e84f8505b9ffa4ec3e820104199fad1321d98331d6d1fa08db6caace9da0927, 0x2b0acc0d168d5bb8952165e95deebab376f111cf6e60e3c68057a6405181d0f7, 0x613086f63c69023ed94e84d86a0edf91ccb090d34387dd0ff9d6ee6010c8cf17, 0x2808d3b979c3e6ad05a3b5e1d452f65cc9303196b3c94216c70ad9fe03372bdf, 0x355e00bf559b8e7148d3271b2a9a61dd0e8f42f79fd796c016febc632a64a762, 0x2bcd5458091e5db088b025f006722fd5627838a85a90e4dfb794299b0c0e3bee, 0x6791e56b1b09c43283f8c7502cc7d0ef47a4d067f60905a2c7f4f286ce8059a, 0x3ff29b1814f1d0e1899fad163c83683678333e18484a4e3e0dec04b6ccd3d45c, 0x42b5335fd6ae1496834bbcf77dd4f7e024cf41839f5d9bdf8d5a34a416eb0103, 0x6cb3b660595fc800b4800fbb543d8d8d0fbf2b4b18c48c6982e39b51fbb4091b, 0x1bd9b167aa554823ba56e90a90071de417d37f68d2b1dd182d19aca5dd608462, 0x138445c7770fad8deabd9c2485ac2d49eec02baf6b1e155ebdc2a7151ad8d7c7, 0x5dbbcb4cd703b122018f842037c2a47d3681d3514ab45e1941d1168feb785194, 0x4ade61876ebbeca001a9dc25b2c0942d6d44a597cbc56714a5f35d81f4867d70, 0x198375f00422d8a2be5469258398c8a302c89b9541b0486b06172a4df449313f, 0x4e786e11e6a358f78294da731b7fc4ee52cd5c641a31bf363e50b3ee4cfe39c7, 0x6bfa635fe30bf9d26331a1d025ece549913b18a592fa52871e8fdbcb5e47ba0, 0x61f27761a9dcce2d38294a952f445346544659e2d92c514c2ab101d99badad8e, 0x37c705735f169499002c0aee9de4d53400b994868ad2a477fd7aa0b845e50364, 0xb8ff1f827943a211e590e60809022d12155322fe588b47e9b4e6023c78d2913, 0x254af6875e1400e83f449393574cfbad32feb4151ba0473afd88021df3a0c8c9, 0x2eddeca47f515cf73ec4afaf921bbecff52cb34cba577b174ba57ed397865a85, 0x9efd842ec9ad314fbace898bfd0b964c0b0b082a44cc16e6f14139c970bfc67, 0x915479e01b63b4ff7545db3bb0fa006d521a66e80129c72cd8eade1c83692fe, 0x4a298463de6f65c7b17e93a29104f0afa09aa0ad8cb9e6d932c3bb65e196fd7d, 0xce209421173405717d1ecaf0c15ef484beb28a3d2e57017d7d399e3a0acd967, 0x5f9ee3ce336276e53fa169c3c0c8bc5f11f7004b35d0093c55408361bfcc1d69, 0x549245d0bb4c1b23c09dfb5f78d5a8df4ca6e0eb21d8ee839f586900082b6c11, 0xfd875ecdcec3a93c823839ad725f69d2fe7caacf8d9ab16c68b319caff0a5b2, 0x35c700ae6c94f8f3d4b5efb70dc38ce6e0614d172137011fcf9e1e0ae8d62abd, 0x570bd950b0ada70dbc60fc0a6fe9c6cdfa0b381b1232f9d0d7d1eb437bff8e97, 0x674c6ede0e2bbe451649e1c53b79e58b78000086669534d1809b464fa8f39fcb, 0x5656295848a0a74f1d63b762cdde7d862a735739b717c05f703c7505ba76f9c, 0x5124df76d756d29c65d49c6df3fc820ff5bfc30cc1b062e6db3986abc1e4a30c, 0x1adaecf246029011f742b91c038dc90121caa1deceebc4e347c2e40b18cb894b, 0x3119accead7ec93cf2e35c01283fc2398471c3bd3c8a93edbc44536a4f1c09d9, 0x4159c030d24c1a4bae2aae335da06c7e71d640d9b2c5ec575c533a43a7d3711d, 0x3d238abedb3317143268e68c5bf816f51d02ad6b1f0b45cf8adfceb25fe622e7, 0x665153f0a4895d68d825c30d1f229da52649d93a44dcf02b14bff3e30dc6ceab, 0x5725af999902f6eb70bcd324e0160868cff16fd18733f84e6dac1ef261b43455, 0x33e1e9f1730aec3e0d8ac831fe2b6483a98c367cbfd1a4010eca0b456f28e1f1, 0x6df5fa75bd25f83d7853718626496cec920f293c07084d9c8218982b66b7d3c9, 0x18f4161edfb01392c4db4aebbed599455e1581e6e80576e7a6ac6767c3241256, 0x6e13654dd1f497828b29524d58ad54c3ebff3c5242b1121e9c298d85cdfb678f, 0x2c41ab26be62fe7ef8165b4bfdad4f1ec5611d9b81e77d7512cdfde4d1050b65, 0x25308c486a51f4bc62499e61a9f5c61e1e0536ed3f60e6e421dffea3da214b82, 0x3fb7ea6584a53b0dff556b2068f6ef5b70b86bff53ea9f8ac19ee84499d4166c, 0x144f99fdf178c4fc81eaf554f42346017406a66740fa44f040223fc34be00c15, 0x19eb7be90f79f7fe3c5cff0d17cdebfdb97f628b8a6d79e9edf8e85008fb0f38, 0x19aad7757c2cb456533c4339a62b1cf8c16d18bbcfecad067397a2b134019a35, 0x423530219ff1122ee995bb3fc4d437a8f3df49e70218be4455285c28d280eca7, 0xa1d708d17830e122dc405288bccce5fa47c96a5575bf791f91be49e8dbaa27d, 0x19117f68604b765ef3d13cf8456a688b6fd010ace73f90a82341e2c7a52037cb, 0x2bab0d052956f17d3f466b2e0fd689eb139929f677a626bcf57a69d36ea6c983, 0x249fa3efc4514ebbb39189dfb7e4c618a3693544c4eba3f40b02167c5f9df784, 0x4d78b3fd6146b3d29579e8159e919933263a03f602c1bf6979c3d06d470dc9a0, 0x263ad290940eee963d614a57177dfd552b58091ab8978ee2b7247f327d7da305, 0x33c076639fed8e812f0f07556e146d21f25023adddbbaa00c886bd0b5f1cb1e3, 0x21e88a635b6acb3c4eac90954a4eca022a203f23dac119f1fdcc54f28882717f, 0x3fff6a2fee7a432feebb3cf4f3bae09922cc3c399d5fc8cfe4d58ae03387d81f, 0x3dd2f99516d372c5ab6e3665d9382a49292b2a0e53773bda3a84995cc021ec29, 0x40ad35e2e2b7e6f731521f146c60a2164cc3ab4281be943a59721989fbe96f8f, 0x5c53813da3d44d21b782aeeb175f75efb88f96853670a13ed7f303f10970cb5d, 0x48fd21a5e377dd5222d2fdf263620a01555dd1883efa046ade705f6aadf8c55f, 0x3fa3d73ce1ec79266c82d18c9fa9d4b7a7c71be3d7e5d400e8cb06da00b6617c, 0x128800ab94a3db8427e1e42738633e896f9094cad4970b80e24bd48f757653fb, 0x3fc3fae3f21a57e032830be4c229441622a7483a782c9f656677b905c119fcc6, 0x491430c0b8373b71ebf0a0088099e80bc37ea19bc884cd3c1413d6d8e66cf5e9, 0x73a31086fba03a9a531ebbb8ba7ce947b861f1e2cf721ff886c58f0264b08223, 0x3054597cf04ba65b18c8f83f0ff6636a36bf432255cb5a1c7aef49c48629fc9e, 0x405cd950d20140e3c860823bf6055c4c9e0c2f5ced42cef833bad7652dbf923, 0x665bccfe7511e1c0ace05ed1e8083f4a4e5a7e8baba6f0ca4e957c20f82b0052, 0x6431914275f3762330f6fde058efb43ffd64464d6977a68be5d17acaa8b9a18e, 0x436b7c2b3a145fbb5183c7fd82a29a1d7c38c47ca2badf7963e698fa6115e0c5, 0x3bef751c97d0d5b725e46ac9bb1a2f447b70b5ddb860cd8e13c7f06c074f4cae, 0x54fe68332e56b0b5a0b1e8754fc3c5a95ee25295273f06b3d4adbda566263dc0, 0x427429411f462be962ab549b520b7d0ac5fca9ddcc558965bb2003fafcfa3bac, 0x678dcff20eddfa520e2d444f94a32ccaf0513122d765bbedbd5e925cfe9f915b, 0x20d71c7e73e50a9eaaab8a84a1c85cc03bc4abb6c6a7b3fac1c66e2f3205f7a0, 0x213987597b9511643bd87468081df9160c539d9e2c73a7e2c15c0fd1dfa15043, 0x259412179747002d2d8ce47fa5132fb04534ff85186cc3dc21cf1e535a2e7b59, 0x24e713929bf851db9579eb5556bbb8d6c11a45ccd650f67f6ce5f914fb058431, 0x61ad2c25955f553b99e7e4806b5b5eda0a4e3df6595894650c2667784cb6cdd9, 0x185ad6b6e3396863c6c06d301d7a93b37496e03abf45980444ef40d5e7041f4, 0x60fd0caea542011ce54b24147aaa66577f1d6c0cb3cfaf5aca545fff8dcc9af7, 0x4b98cbfbfd95bae114d9859412329bb2a88d974053189bfad38d28ffdd5c54, 0x26cc261a4cd4ae02f28377a2fc5f6dfbeaabaa113845fc8569042a7dbc59a917, 0x1afeea19097342aaaa8c32357e5d554cac27f51932cbe4769972e96a1d1d765b, 0x22c582aecc02db7dea2735ad6d3dc42848f76183eadd097a99bc9918ed1001b0, 0x39cb3eae8a4f52f3a45069ede4019ef97cd5844e1d15a86045139598793e096b, 0x2efd59f930e434633189b7d1e28353a8ffa30c3be11bd3b12f2cff9659178fe, 0x54f46a8d171f458e01ffd995070836e26b26308e349f8accd66cf0add9527306, 0x4bde4e3a4fb059c357c22e0d5379f6d070cf47ac9fd3796efb7af0276e84b218, 0x21aa20b5d0882ff48fa7d5c29973bc17ad89ddb1c62c29638a5309171cb969e8, 0x2ac1b471a150bf4e51bb212974a7a697a67c48cbd83a3e61df1e95f1a6ce0f34, 0x1bc69baf6f0971f85834ba37c380341a0806ac2cf70c42bc0bae53c09511673c, 0x5240b439fcd830ca1c7b38aebd1a67dd20b4f9916be27efd5dcbd666c1331200, 0x27fc9224e203007cea36ddb59edd92f264ac6a34b6184c4fb2888a0218de681, 0x369b36a7db0ff03ac8c22d12396f9783c96b106a1bf4e397aa2b989cd9052c28, 0x28fcde1ca6ebc9d64df130c3f5073ec0665340f7823d5cf9b0e0795a289b4971, 0x64e8ed8eb21d7a0bdc0288d387a1caf3f374582a1b95742d56680bec435ffd30, 0x6977a098e1230d39aeeb4297b7025fe971d07394df36cdcb998321ffb633d279, 0x2a36429db55d589bba0df90cb30d248537ae02f482744c2edb84ae0b40128a7a, 0x3ec625d8089f39f7f08a0f692226fc9ea4f7ddf2f2a97847286f96f24a492ef8, 0x60a9d8f875245917dcf03176f444d33eed331c74ec8a7bb1a9893fab3f138417, 0x4c130820132cd5aa7f5011c3da6a35643911a759e445ce67486c29bc94e90728, 0x14cb4165fbc3ed26b10f90e3b22d4c7fcff8b308f030476560c98c9456a44fe8, 0x4e36a4941b7cc7f688b93d12f5370015b7070fe0e8cd3d8dde2bf37ea8938e65, 0x1fe480e970daf78b367ad6b3c55dae9fd6382ca820e115e49ed780c7a2a27be1, 0x45d29d4e498a171e4c581efeef52c728c82e79e8de1b8a847fff8db73d84508, 0x6b0f51d93126dde10e3023ec0312888cf0f54574675228f5698a1a6cccf87445, 0x27ef8f6fceca2ea7d94871348f513bad8fe2cd0a2c96907fd49c2634e2eacc6, 0x42c6a1063bb39b178de88a7496ea1227ece127e55a1705e16ec1ba881bb0a3f2, 0x1b7c9c2ae2ea7f713d40723ced0996db5d6a75284225a89dd1bd8250f20faab2, 0x1d542457b42fb2abc926a6a6e5a69b51729e57ae8ffdc9737f1a758e0e36ed55, 0x3af9b9c58ed89ad06f71c3c2b40d5f24423d0ceec98e087eb04440bf5ec8bfbd, 0x190a4d8cb0abb098851421919c48d2ff4bb28d94ed3f2820102d10936016bf6e, 0x3fffa2a8b342be6a677e379759c087bccb11391a459a34266538b37eab91799b, 0x7e107b7c0ab73d53c8f90ebcd88d4ee32a0bbc00353e59e445393f77793ca45, 0x667508bcb4cbe6a39c7303e4ee3f61cb6864d18a7bbf96483c09eaacc0eb607b, 0x5aee4a961efcd7ced80e69f139be835509b7c9145b0a2b6587ffb693b6e85107, 0x736cc757b9fa9b1bf0ac6b110b0b270169e16310e44137cc384e87b0b090dd45, 0x13ef1ccce263a59c7a1ba6840f8c3893d4c72d672a9054bf485ab598b9f768d6, 0x1e1f6c8adf60d0463571cf6adbf7a55cfb706ee448538c2d28edd27cc5c61ae4, 0x219aea47e1e464d9d271a06558f60e4c19ba09a4014e8962e9ca9043e4630789, 0x60ea1ea4226e02599ef6f55d5b6f168b2ae82820eace09b91817594185c1e26, 0x10088a28296db747be1c62ec7352b6499c9da38eb8a69aa90cb65f51b5d11cce, 0x5aafbde497a3c752074a8830ce678ebd4b47e6a1c588906970f307acb55bc345, 0x4e56aa374401ff4842e0d4023ef732979fc5bff74b7ff0446f07d4682ad31db6, 0x5d7c991da8228c1ae0b7debb15e75a5fc4109c2a859f202e4a7b5e6a22e00710, 0x44a557d2244b12c5c6999ecb0c04fa8f0ae21a7a42d737f0ae5b743064f3c550, 0x368495089adb151debd7c1e6e6179c1a560dc6960a0bea63e2475e349435d327, 0x72b039cc2c6677bbacc2429fa55daf915f0b3ac4290f043c4c9cac6525f50924, 0x420802dad7a30078c5e85464f99ff8faf8a711fced475e7fdad23c3da777ef9d, 0x4cbfb44aeddd8a7dabedd76577f09d971e9a006a6d5b674d38f9fcad7c3169e0, 0x615a12b63433e0b268fb411a6619c59db7b223a558547ec2ff4af0aeebc76db9, 0x14a26da751b81f6fdd599d8355c49ed9b471252462275a991e649d094cd23faa, 0x6d871b72086b9b25d1a354f33f6f6c610efec4955d0d1369b5f708b9ba5fc746, 0x1f0e8e682575d8929707ecf43caa2794e1ec1781431192d9a98082ffcc7d182a, 0x2228d6a6b3c32ac3b378bf5f00d0abf96c26b51f4d5deaf375e6392fb4477aac, 0x4551f06b20e5c919580156597953cb9aa85a4c52afe1a6e7b6c6c43021f57d2, 0x3e6514c7874802240a66fd62ca9db602301d79dadd84e2e7cfce9f914a32dd89, 0x34dacf066997d65975a368891a08b13eb99b9a456889da3fc335b3227a6f0d58, 0x4fee499a64927e165ffb284ca5e441910146dcf52cbbf99579393952c37b8091, 0x37e89a267e715bcb949b7cd86387f3b3d23f6282d913e381c592f5671a649b6a, 0x4900e532548e4777acb69416cf8a3e012b431323f97ccb5316f265324a7ec0b7, 0x3e3fd2eb35f9bda0eef5f3959cbd0334e51e0aecbfcbc08798954f1eeeaa2f71, 0x4fdeef77f964d1a0cae3a43acaa193f180be38eadffbc91ada263238ebb73bdd, 0x445c68429e880dcc9fae769f4c4612c6c9f36db3bb60b6de3668e107bba4dcad, 0x10d45777aa14bd67d21dccd4a94c79898729cc07efed5ca327a9223e5bc68dd9, 0x5168d8a2a29ae5ca65c1c7a93e73dad7d8cacd7e453d0835a66157695cd79fd2, 0x5b4ab2211b036b67d249eb421f67f63969593c3544c554ba76bc9ee9acaf0f79, 0x268101580a9dcce767564b47011d7c50b24f7436f06a485dca9675d3fb3c092b, 0x1c701ce901c2d4778d271c04fa11a3754c18e53503ade162692f9a33c1f73da2, 0x299989be3d7a0eac2164ef879dc046c83afc034cda41fdef8aa48e77ccc33572, 0x25cb19b73f662325c9554955363fdde4d3d1320b0a97290e937593996e00924c, 0x1a6e552d77f0f08d04e854a54b0cf5e69b9f8edf11fa47449e8d9b10fa07cd8f, 0x2085a1c9e2ab5c0025505c63bb1cfbd4c475d00c1369efe8db9e22f174ab2910, 0x2dab49a91690e8eb28a2d7a8c03ba6639d0ef27eeef55baacec9a65b82f7dd45, 0x4e4e4ff251f1f0cf41779318a53614913de77876df059122f5809a325a284ef, 0x1e1ea7049b621b86ceab02e831cd926ecd4aaa00c9f545cb50618cbfc7a38656, 0x158879e44b69bc63f0551d1c77fd1e81ac9d7b28f60c93ba545df63d74406bb0, 0x643e0cd47f3f74a303c83c212f8e862565f007084f0ba1696e17f76e4650756, 0x45a736f4a4c91be47c7ff3cab4674e0b109e86ee0e6526d2eb9575e84f828577, 0x1309988bbae61d31d874a8679e6db71396e39c1157ba0aaa8bcd2a286888dedb, 0x18ca203a4b8e16de286611182e9da8ba93e27f736c1fbd342785ea1958ef26ec, 0x6ba995774ac0eda878c4f9b06490133ef8cba104dca53b9dff2c0739fb083e3d, 0x6414d77d490194f3c2760d50332d0ef014419068a403f24eda82d44e2082b8f8, 0x3cffcefcc4c3937630fd34ef8fa08ddc59348063447005fdbb08b276b930c626, 0x22844b43853cdccd39e43da044ce75f9193a0e82787f73550d7873bf62ac28b6, 0x289e17a227dbe3c43e1e6da9ff1d6465cef23bace95d740f89a808c7d32b4616, 0x5d369ac070c40fe91c5f7520821abdc062116111416db208a546ad3b0d710452, 0x35806adfcd0e90d10a4a7628da94d8aa61b6bf57154d98e64581a71f5f1cd091, 0x27459453beb2fe724ef9cb12d8a1e893e8ab4334f02db6c43d9d2fd46f70381c, 0x4da9b34fd4b49e629ebc3a42027d1c249c5e5d839a90b4c12cd87e17fd524cd3, 0x71d50964a6c51253a73857a24224f41767dc34b06ddd11ac7b8452c85c3f6b95, 0x4887c28eef7a2a02902e747ba9529cf1d6899e838a5565960f5904fa3d7bfccb, 0x52d07ebe4f164ac96d6fd973c309542ca69c7cff3ab163cf1da4e11cff9b132a, 0x19943274bddb674aa82126f262e4e095ebd84e126ccd9b437617ff4a398cd8c1, 0x6dd5e3a1cfed49f7048976b42a439683e82e1b075b14f48fb0da0e0cd1fbefa9, 0x36e88fd6d3aae33181dbc3e46276eba86da014096ee74be07b16bc80ea0c08f3, 0x5217140d6e1fa156d1daeeba09f74d784d6f4e01bdf4f5ce0d1732eede7d64ce, 0x1f53c042232bc560700d1c1054f1441013c34b7ff5914eb976f57239b7f9afd7, 0x21b0e4a6dbcc03878d80e959a7d8c2af83dfa61484caaed8c57596bd6dc37bea, 0x5013e36cf2e9422086f8d04ce01b54ed4444d38fc404a1ad48460fe649e9d602, 0x3e372828e2f4632ce716899ffd1abf185338345846fd25085a2b59054d0ec0ae, 0x6efafae1dc300243ab5d53daec25b1b5a55fd6f83db29fcbd8f45c2779b5bc61, 0x71e0981ed11b7deffb0c564877e90bb343bc5a2f4c7604980ff8cf48abdac669, 0x6884df565632fbe8a860eb1e3ebed91fdb953e9240805d8b0f462f050caa279d, 0x3ee6a7bab1c9ebe07217843ef9a8073a1c9c356fc4d54fa3c718ff33acf7a2a, 0x1ae4ba36117945d7edb73e465fc79d7d4cb7aa2acfa81ce467288c7a38232528, 0x4ac906969f06c9a2c33b762b623c27a6902fc84eeff14b12b2fa8815e463c801, 0x9b98ddd3a5a0da72f337def6a78406c6c23a1ece66fc00a0895bba7d5253399, 0x3844eaa6b10767afa9fc7ee8e346ee9ea40f4ae2a43f63ee777e8a8105d7dee, 0x6171c59504a02f6cd286b19f695ce70c979fbc05fcbc04449437339997b1a58b, 0x521058b0bffeef0ba3204e540236d531b143c95e5e24168e84d8e2a3fcebecdc, 0x4021a1eb8d6b158fa9f4d52a628b99a2891c556fc3ca58aa4785a6688179fdf, 0x5c8df687d06ad3f5e3d82794e4901f3a74a9051cf9413242196add27060df5a8, 0xb1cc4f446622d10538bc3240b43f1d8a3fb1128f16dbdf64618560934454c2d, 0x3d50c30fb49c0ca2bb319abc877556e7d2b87164408f8373d823f7d2ee56544a, 0x2bf2a8b99fe1e8badb76511e7bd98008b4e41a7bb99c8c87aee42979165e15d9, 0x5506dccb84f118a1808136939151cecd1ef4af9a3801d720b40ba1993fe2b0cb, 0x44a505e1af9cc7f869c659d67ba90da061b92ee27f6a41985dd4c95c47da5bb5, 0x11fd732e6ac4b8bd9f6ebdfe8516a99196fcc4f0a774202ab87e671f89e9afed, 0x126d72b393b5f676e34a4fcdff06bc1be1caae192577cfd173f0f5bcb3112a6d, 0x4d10e53ca70d19ea922abd597811b5d52ece9b9f1eb1b3d7ea4322cb9897220f, 0x28861093b11ab6393c999b945cdfe2b8948842cc2672a45ef5ba221ed6c033b5, 0x47c3d80e3e84b99ea2b57f06b3c2ed1802f6487fa2310cded2dd1fc00ce74865, 0x1834100920151f5382df279a903ab1bee24bc5f500442d61fa442f6a7037c7cb, 0x34d1c94d3e9696ffd5950a7b3a52cfec8752e92948b1056eb3c0120bc733736a, 0x5a4612c729d86efe69ef9ed55b3bf430b6e08e935e1c6a5189519f14690dd7c3, 0x42ba309e720b99fc66173ab461495530789184d9bef7214f3081480718886574, 0x1de9c546c438c20fcfbc4122bfc0a9648e149e84e84b56a3f8a0d60d4c509014, 0x37bf78bde85ea38675e50658c2bd6a9dacfcb76a6d2c503f0e5017dab8bf31b1, 0x5ac0c4a9b8af27993d0af7c5180b155ba2810c2920107a801333f9a3d1cafb40, 0x4d150f30bd6cc5757be6db3be7d76d117184f9b2c2d0573c84a505cf62570351, 0x7c8c8f6fdef8eb16eadc0e1333fa64f18595cf7b1e0ee13d430c952335cb3b1, 0x593205d22c6e7f8bfbfea209f31d36cde78a1c6560e33a840ec31065ad84f0cb, 0x2915f6128b1de3d4c7a88cc5f5861620ec2f447cb5e8f7badbb8a7c6dce17df1, 0x6d8e3e4c64a49ad5b118e4031f0592548a546c3d86d76524234a4e99787a8a83, 0x330ae45d2b8fd32aa931ab4eb708baede04aff064c1a99c4d78a2c163ce0a12e, 0x19d158e7e82e017a3c3dcc07c060138c7865e20cb5c9555ab66b24c7de2fbba0, 0x64c1675106402e4eb2bcec7095d6272f66ecd773172a0cb5c41fae6a8e8ff87a, 0x38cedb51af298be23ec7154e6851153326b29cb02554f39cf32732d7007ae04f, 0x15dae7875f81d90ef1607d249cb91aafae5496081d29580952031e0873803905, 0x4524e47bb02ca20a77054afb807143cdf2361296530d865376688e6378878e94, 0x24c5886736791f938ef7d0417e189497bd9954bd341243af480df7ee7279829c, 0x34a109c7ef17316167980027679be600a216aed2f0aa5706cfedd96aadd740e1, 0x19648c549d32bd838e3ea432aa203a1f86d65512633430f04ca3140d7cae48c5, 0x33c87df67bf8be340e48d0532f65be54c48165c136175ff5aede0b7c3fe6c307, 0x1d8f589a99ec06c29be12e9e7e9556cfa4a980b16eaad14b02c9bfcae774d3a6, 0x1def91c847745a20c7ad45c0cfc1bb2d91f188e0541253811fc9e632d5bb4c26, 0x731dab22640ceac69d1c57f29c3f54928385373954e9c8c12042dda2fedc0aa7, 0x700c95089566b5549af5210b9f757cb60fb94b2d6f42e50c2fc5fd39a29d5ff, 0x2ec30f634de6e5cbbaa4cf5004331a1703beaa64698c94325f74949d22c413d2, 0x40bd63ef15c8b0a84f6b9089cccb746cbe2b793ba8fe8188bd56158b28c82346, 0x10e442607bfd9088f25c4fb3e06219cc0e6ad33d9900256b1e96884168e0e300, 0x1133e033e4720b3f165bde0153d030144d942f274a6dab1021c0d1a22cacb26c, 0x29fdf939a6576bda11827fd2d06946cd6e48f9e3b3505b21d2bb3d62e1cdcab7, 0x61db298c4341ae2747db7eadfd0a602e723470a5b05ccc22c688df52c959eaf1, 0x54874764f2c3d91cacb1707b1cd8681196c82182717ed8f9be5aa137b02d83f4, 0x21e06b40f66f201c62abd94d86fbda7dc2aedcd5f8d963f2c9213bc0edc7f2c3, 0x2cbdbb88b1e477e9bc97bf461be1dc0f75eb50ae3524900da65853e0113c6417, 0x3323f70bbc93a91b3dd4d08ea5c053ce30f9bb444a6c85045194f04ac7a35932, 0x1efad6747b99b15e6ecd772e2550caa126d6234964a2949232184e1c90284cbe, 0xfb413de68937980c96d6d25724c7163caae80e383464c5b7be2b141a9853531, 0x26f54afdb5b7c678d46ab87c5455f044bb53a601f6a6b0d2961d685e892500e1, 0x129708ebe1e6ab51f6176bd0f6dc997601ac664e37a475d0966be3987623c51b, 0x6d17b6e10af431bae83a472a0df556c32b1442b393dedf98c01be7a6ce9b1c67, 0xdf487618877d921b977f590ab89c1ff05abf4197ff929178895a691cfa761e6, 0x43a119c58f82433019930425ec03f20f37bb4bc9c31705c483adf6201e5855b7, 0x1968146830123ed1545237b29fc0c95903fb5f0cbe1b461440a5f14af7348641, 0x3ffaba6ec5746b5757deb26829c0cb8463b3db9ec9cacd04dd6635405aa9ba21, 0x51fb6d0e987a6a96932c595dc21124f3931abe31303f1ca71a8d165ee086be1a, 0x15f924c6b7d19b197261177aecba00b2c2a8ca5eb913732d40210480e3b59c31, 0x4d53352c458d45fc36fc7dbce6923d14f11e0f7f52c0c9dc54c7d61e0be53fb0, 0x5ba624d3d81ed9146116fb5710335ab32e67c54ce1cb11eb067161804f138a8e, 0x40ed5fc00554ad043ec8787bdb3874d535722cad35c178e4df35da88d11a606a, 0x2177a122306b26bb461b9ac7be3d8a6b69b04ddd0a582cbe59105de753b3368c, 0x654f8066ff854898733e4e4a1f538c19af783912286ffd5fb6d887942536207a, 0x7273d767378930ae59e34692dbbf80c5b05c760a928e9190924cf4e1f51d284d, 0x50743d93a4f011dadc8ad526dc21d60d1b0f6778f5f7c90fa858289b83807ac2, 0x6d647d8dd18e2bfd5497792e3d54311dcc80bf96503ba8ceb057c1f2ed6f1f36, 0x7531c54d974b064c77bb76cc91c49242742b1bb93a1c4920bc5056f4b1563fb, 0x44c55fc32f3471bcf951940e9255c61b889efb5bce53cdcd894a0b345547a303, 0x1e68938747e79ded1ae9f106b935ebaae34ca53307c8c8c6e8ae9cfe6b1425f2, 0x56f59fd276d0419b48adea1b52f9e87c48ab45c31bfab94ad18a4b06f94bb0e1, 0xacd7ccf046a95026c1d134851b9da6139609422a7ac696dc86dc41fc36f882b, 0x6cf9445ea5718a1d46c2740097602f5d7e29a061319a94d2c242f2181a9f6427, 0x54d04e143f931cd8ab255e3a1c0a62395211816c20374f56a72d21a068259338, 0x39a4d43aecc253e2db5a7f369eb3bb1ea251f866d3d2a1eaf52ca7eef8932899, 0x26890aeaf22b77100aecd330914add7c0dd6a926981003ec9d558d62b0a7eddf, 0x280f72e920dc90942682cd290fa7a8e89eddd91c4a4a6d1d201d65580752ff7a, 0x17b68a5e3635628eac2a64d1e78340857095bf472fc313390859df3abcc6c959, 0x69b020ce305021e02ae64aeb1a8fb50fe9bee45a4f9397bda29cc0fbe1098686, 0x65df9306ff173d48eaf8eb9fc6338d35bdcf2b50a9d988e7a78dc25a42e27d4f, 0x556cb0a477b01dc4292af3a4dda89734308aa17af78985d0e56a1b65b6b5681, 0x10298ea2237a0732fd964aa367c409c259f136d7985f412ba4e1cb098e4f9f91, 0x5d14cf46b3d28a2fc02a508ecf03596bd60263632cbf372cd7769a5095248ba9, 0x2b61ef36e2fe6ec17cc06f595a9fab1ba51c1632fce60e1d922223bd4a86b91c, 0x34bf133dd39970928338259777ac864588ff65e096a32b5b860147b902447b61, 0x4887f8555cc70d050f7b66dedd4bc3ebbfeaec156bbb3496eadd9868015231b0, 0x4e46e8d4b6ec9810909102e86e5e7fbb82dfcf575b8579e7ea3987cf437f551a, 0x32db20ec2887c99c83a4045dc52f123decfbd89d7a257a00e73a5e18adba86f4, 0x1a63a5b7c94d614359b51040e475dcf1db29054b3093ca83e4b4fc6b0e2fc9fa, 0x732ebf7f1ef6afb2cbd28de6b64b9d9b0a67008a6ebf36adf96cf83a122b0630, 0x120cea3c577be76ad713ad73a632eb7f778d35e3fba46958e5a07800ea04c551, 0x68f5561dc098b1624f7cd153af63a04bab4f84dd80f5c2eb451de14f184b0f3f, 0x4e3afaad72c211fa9cc8c13dcbde542a795f1726395003690beb98fe30fee5d8, 0x24b9d8df1bafc1f52b29e55ccd77a904d71f91278a20fb0b4dbdb8bc301a25, 0x594785a248948fd14e32445960cd54d323a6fd92acf6b87c3e1382437c9fd381, 0x51d02ecc5ad75d670ac5689b758461234ced8b0e9518d34b148699465299a334, 0x3adf1e12cabaa6397f05b670470fa1bf0096beffac77a2f680dc830831d9895c, 0x19194a52b235c5997933df8780daf9a092d55548e2ef3aab0523d3e89423b166, 0x37e4392acd84b0d021921982d86830c4b5a7aabd740eda440715392bc75e0165, 0x3bdca1653159c30d255ed831754cde3f912f09767dcd39070342346d8210e4cf, 0x397b7718c0cd60965312d2402f565328be1922fc32727dfa59d9618c70c1e387, 0x2d620add8d3fa62aa823683b745583889ecc89cbb140506cdf8701e1e1a682af, 0x5ae71a396924a7449c2ad833de608c4cff37244ceb858816d438c3e3ea7784f5, 0x23ab4245d68f5250b56ee64ba2a303b74ef037dd3ba9f2d02df98908a21358a1, 0x5522b158eb573844a2d36b661a5502eac0771abc430b5fae4ad7278dfd343910, 0x167bd349499c5bb57c78ff2fadc74b640f3804a58697b57025dde5f535350193, 0x1833b7aa89bac6854b2606a747fcbcd9ab5c227f20987532dcae7fe2462bc98e, 0x4e8c28fde4ee6d2b9b43fa46ca2f7f294e491d3fad84a74d57535e140ea50250, 0x5b4b8361f637d50fc0687629ee433bc434c8ae48aea9bf628e7d7dfc85fe376f, 0x55f9805d3e4bf68d58966e0b09b6f441612d50332747dc2af75dbb0feb7f0ba6, 0x1df86ab867b3907a241f976e92829df6ef3fa8bfffc57a61387a41ef9f47093, 0x63692620fbb250fbbc2f910ad14045d6adf62860b49e0678bdeebe403454066f, 0x25b25c75685f3b8cf4b37eae13b4fb44c5d51c472116e8748556a8006d3a56d8, 0x206f5dafb8d49ca7d37c0969d236dfaad547f693ebd5ddb0bf8f1f83086118f8, 0x5b3f4704ba51c1e40482b61ed80017a582c6ec6ff08d782795ee49383338d19f, 0x215e7d5d81ae03cebb2b3fb42cda60c610d1b0b19642953a5f20c08065e0735d, 0x69764cbc5eea80f147c7573bef1096b3d511ac2dcaca927b23aafec81db23cda, 0x72548d81e8c81f3ba12d49dd961e68755884cfddc0734996b411a17b46ac3802, 0x229fc5b0590e07aace7c9431ca8defb164b8c9861e75dc94f5771082b5d30b51, 0x31e8dacfb7859f5f283dbaab69b8b963a8fd6a98f30f110e581bae0532f4c1b4, 0x50a0792e1345e60298842ec0d16abe14c07dc1d3dbd16519d19d54c4b9c97545, 0x5f79f645cbb0d43d21b2b795f1a7873916a48ca3b6ba02fad5f3e7c1858558ac, 0x27fd2bb34644e6d069971390a2d60bc593e891150803a82379bb34d41c72acbd, 0x240cfb4f3ca46a4029c0e64bdc078b9e858eec99d401229a2291c58fc5bfabc0, 0x9f17c6b40f51d0e03e30ed2c4488a8edb971e0826b0d8627c297d0620fbc0c5, 0x3dfd655af56c846e166dc3531a1b89d30e3b712b9b68313b7130d349c13c9ddf, 0x4df71d5fd3eb8ac2f1b7ce4698fe50b783a2c270030925d3591307a047aa2a6a, 0x48d84c4130771a6f388c9f49452c0a5544dded5c3af96be15ca7f26a690f899d, 0x6e2b7f101f9f4c5cf785713d926fa19139dbdc3d1e37c124c4312a9ebc40825f, 0x6f96ddae8cb586b48473f15a0e7fe5232f52dd0cb30d4fe544ce06ac68316ab8, 0x7132adfbf50701ea05d6bbfb5ff5b894a17734626e8e94376c318b8199a5e0e0, 0x25e265f76d1e968532fa2e33ba8d21be21a5930d717940835d478fb17f6f2245, 0x4a96da2bde0608c1c758eb511f0fcd095168c65212a9cfb4b44f4f3b0cbb8910, 0x57c940a7545860bbfec5a37fbc236ae24e883105bf34f5c2b6997759002cc521, 0x24da28ca6174574a4d9a8120497c26d22be21829a8e18b3cc8fbf488599d9d05, 0x4b05cbb95ee9188087f8d6b716945c04a22f748bc379a239b5a9ef44e6ecae67, 0x42e973c9e914056faf2d7cde36bf1e0740e5809d9ac2158ba0355389f45dc3a6, 0x445430ac57ff54013727c7251481cf5efeb66930ddbbc0b5758cb9b6c5e3ee6d, 0x166b0a3507373b7377d767a6d47a1d79ef48d078285631a349ff9b2a5aed511d, 0x53e89e55d1b1d627b2315617aeda7e00f9e0d2a988d5e776c24b21aeac02e694, 0x64115cf2c54caed99be19ae03a0af84c509f1f21d600bab195ac741bfdcaca24, 0x3d86b6af184035c729163f27770fbcfeb1d30e9a2c88bd738502415423de9a79, 0x23f6327e85384225defef720f248d373d746c3bfa2295ceeeadce90bce570dab, 0x5b88f94ecc8b34b97f7a27e785a5ba975e391f37c03a79a84e663424471b628f, 0x263134bc094552e3f5c533549fa0552ef3eb0a05cffb68cfb13bec63967e5a43, 0x1af76df26c87a115da61fe349a9067150aca78b8a8a2780533f19b7b0710c51, 0x141a5801f07ef15a071fdc2a46d867b4d0de9269fe23ab978cf4c7fbaa2e73a8, 0x16a1ca584c1efcbc67037f515affb5f1ad66faac6c55bfc18b5cb4fca76a9b41, 0x268abe6601af542379d9cbe443b67fed4a5e64d85c19534fcd220bade82a731a, 0x2c6ffbdd134a6888b80c73b1476fd62a28da58e54558485b183616df9f14c770, 0x57a33a67471300fa9f49eba97aa1e89315bc1395a57e9a324c53e47c2c070211, 0x809564af48937a4fae31336ec3d3947c9d41177a8b1f4fdaac0d778a09ea196, 0x4fa2a560f814b8b2551f231cc3d8d30a92a702f4c5bcdca64405362b913b9289, 0x1c26488e655fdf990e46358429da0587f8dde019fa2935a3160de16c45a37bf0, 0xa6145285d0cced8d9c98179aad9630a61fab6b4c6087356c90cda1de0421518, 0x164cbf3d80bfc1a1930e4e4bac880e7e86bd007cfdf4915c6d9dadd1d62340f6, 0x1dc8e81aae25f0de559cbc4d2adecd553afc6a31a483d050afa576002159c188, 0x55d3e81f79a7a31231fc830042054a5ba698f4b8dc969676db14699c9033262c, 0x384910e321a7d14cf467bb296af7359a11651cad7ac3b7eb25cfcfcc3e1a729f, 0x354ec02d1a43f0cdfbbea76a5971858ad45f112213ef67e0086d71c6a1433e45, 0x3847c76552ed6ba102c0cd2d1e59b8b9b726e42edd271536d4b2f2e2b8531ce9, 0x5284b0b142512353b934bd6de30018a6f852bf16261841ea7c2d546bbe59790, 0x7c34c801c65c91b7e1623a9a8b20934cbbbca00b17fafdea12fec0aded15b1f, 0x44faea15700277818a2bd0ff090bedb44945abe2f03287284dc8e8d8c3174206, 0x5950b5036e0f0a3f5f84a4b299b08dde24ebf2b2b617bf7bd636e8805739bfdf, 0x4eda3047a744e96b04e6abee8bfcc2edd0d2bc52b6dd766db6e6f17a262f4b05, 0x2b6842e7b509dcbae87658ff45fc4adab238e08e95017f98c28f52247f69cd9d, 0x6e50a31ffdba56e0f3ab5e0c7fadc6e6c0221227cb48a689e4329e05d01848db, 0xb6e0d7b2c60332896bc0fc3da4f1773079210bbf6d2527c93d9b88b66d5d07d, 0x13ab0a41f408e1a278347833fe10d117a9d1b9c03cc8677a0fda0ebc6386ed3d, 0x1ab7b5476eb99110915b7b5307b00c6305df1be626293e92b2bd5040d810a395, 0x38b2afece29c471d087518c0137b07a5ae8be5b300b8157c5689927c527a2640, 0x59ffb9c268d82c89044235136383f6d87b10acea664dcbb7b327a857e34e9b0b, 0x62ee2f2db87985979afcca3dae6fbd5f3fd5148ca71897b03cbf232850103f2, 0x6d8baee69153faef8a8f0b5570aa2149b8c4bbba4b43eeedbac25d6e09f8e98, 0x5b1631867e8b5496d63b830bdbd7098176d01c5f82118de39c2b5a1cd2b313f7, 0xe383697b49e10c09431769ca591a33541c149cbfa2a8f427f300f8f5039219b, 0x50f6a6142de7e194ab4d1738ba0332357d85854638109c98cca7f588584df145, 0x655f8898c7e90960d8bc3c141a9ff9e880c95423c6fe88df70895d0c07578cdd, 0x3c25648c01f7a2459f45ef01c7626c3c41a3b758814d806cea196741d7992645, 0x258322c764ef442dfb9ccbecc3c1c4c3b7aec0de5f5b9686dca8a9ac0a0bbad0, 0x3cbcefe4859e59e6c3f1ee32c7de5c7e2af8e0ad53e92adb8513dbb6bd5db477, 0x61018445a5f5b0abc7ee79039ebabe4321328a94699228244cbd2cf1231af67a, 0x31cca62f2240a6c6bd73a7436ce31931c3203ba7138c1edecc985f97a43adf40, 0x5f73bba05e967eddde43dde2c829861eff2ccdeacd5e4d333532dc94bd4c5737, 0x38964d2f64ebc2c4a418af19fadc52b1d845961450db3f6dadbfd5b29e0bac3a, 0x274461158468ab52f7e8535e08fa0af73d0b687019fae45b28b032de4b56c1cf, 0x1619df27b9f448e0d1df2fa6cc3bea2b699e4ea47d62dc3a83b307f2c5d81a5b, 0x60fe7b9a4951045b71439f1a0147575f9540310e3984628bab76cca93046dd0f, 0x2103cd4c27f546dd24d687c54dc5f132be52c354b5177fd99825835a838c0492, 0x1c04ede1a5f01bba72fb9fd98ecd677aabe6cd09df7fa7b1dfd133d587674ba8, 0x35ddc55bc467077b4aa95d42e29c7795b340fb42781798d97846d2a00ae2c827, 0x4bffcc30c6790fac8336a4ffe71bd71ce05c6b3cf4b68be50a720f7d3495b6a, 0x6d308caabc33af459bff4717a665202751881bf6c15dd070f63b6fbeb88a9839, 0x6cc75c5d47e8552c457fc1275d3db6dbd6e2b5dddc170a2fcbf443c1b3d94644, 0x1f1c7d0b224c7f6109967471521e14781d67ea0755c2abc19c1ee6a9a23980a5, 0x47d342be976d978e4418ba0e841666bb5e5e38edd5b54b5d54767576d96f70fc, 0x4f184030c3afcc80b4f4652b887f791838e2ec64ae90b7ba350a3a17e29944ef, 0x22ff632b2d71af215768d1047e2ad8d2f8c0a576fc5269c577b1186b30cc52db, 0x4f0f651bbca7e77c33dfa404659e53dd00ad53d336ae2b4f8f0a7ea62cdcbcea, 0x34d65473c95b56a4f1a2bca22cebbe7e5cf69b34f7ccc2b83fae5f028ee2de65, 0x10dd55e71bba78bd66e12c6ef38f55a3c128aa9573c4a23796764ce9e39a570a, 0x7bdefed978a3620071e78e3cb92dd9a3d9b6a78fe3a563412a58528ec44ece, 0x2b35bc30b545c41cc5aef84b0483ed165fbcf32bd3d807fd42a5501cd2a1e66c, 0x951ee58e7dd3ef63d0c5a7538bc120c555f26daffbee5c1e0f6a43425fbc4c5, 0x3f5feccc4d7352d16c19dd437ac985d338290a15286d8e900dcc5b8947f9cdb2, 0x5c40efac9c5bbb38b35aaf77b8ce4036786f795955bbe18c19ed366962617b23, 0x228d2258c17d564b2c7ce569bcff842cf1c6d15483ec7845851586f0af82dd2f, 0xd3bdf33884851d95fa8a747d6e1858f69ea0be0120a336e12eac0f3e9ef007d, 0x52767e5a3676c645a5631a3dd50474767fa02250bd89bba305bea87e316bc2d8, 0x4f15d245b3ac7093e627a29a367563d99830690f8be1cff8aca43f73007a57dd, 0x25bd1a772bfee9db2abbc4b4084ada734133e241de0d56bf7211a8490bc2b6ea, 0x45a231c6ef94062ce38cef9566466e50344470ebdb289a1e619dba13931a2c96, 0x36a477c312cb23848e1e05619b5905fc1606778f9262dd68d2051df4e46bddd7, 0x3b2c1852993b07d0532a4a97a4d50514158de23418f4f681a35e258d84f40253, 0x107a6b2bab3ec0313dd53f0c23ed4de3c6f718e54d4526e7bee4b8dd82c5c257, 0x607ac63cc784e53026155d5869881d89953ee7d2a7a1c14b6620bd72aa856996, 0x273ba75690a458625c2894ebdba7a21046a59a89e13397abd2198ce32894b805, 0x4f45038bc609104ddb8d4cb5ae2da52312cb5572cea6133b261be46d1354fb8, 0x8a622432ec77886c3ad36bcf788cc9ddf9d37dff8a63e34e4306f573f1270b2, 0x225e2c2e0a90b3e7672d2d6894587dd00fd5191be468910a3cb623ed081f3ff0, 0x4cefc14b20aaa3dabd1566c1dbf1242f2fcf31388174480f12bbb1bdc40b9dca, 0x1a57a731097d979932603a7aa90f9f744fa77285d6ab1edf0b1bea2b16c08d26, 0x1dbc39c96d709eb2b8fac322b941c18ad47d3fe9d7c9037e79b27557d650e35e, 0x1f99b89c87ed64ef9a37650597829e1e4e465c06f0abdbe1d9453fbc20684c7c, 0xb8f729f18b1bc1f032bb6a0af02e81f7431ab5afecbd2e9ab0b8ac82cbcf3bd, 0xc14e32259ee3570e282c36a9fff8f9283c62293b7563add44c739a45b329688, 0x6d1ee7b63c89e3a60bf4aa522782c0e69dab16f700d4415409c38c0c8bd5bc76, 0x556962a908a54a4d3b8da8bae2f9fe7e9dedc2ad33af5a92a362dced11ef16cf, 0x57a699b00da624a39b295a44ae03e4a5dedc40a6f25fe8b9f6b6bad6db689ebc, 0x38d525697fc80e7bf21ff35cb88c435bd147093ebd28778beabe79fab461ce07, 0xdbcc9d8e87fd18eb5b1dc6b6cc4d990a70740b579056431ebeda90b7ef66195, 0x22d3811bce66d4b162d503bd51455f3c805d1aa32dcf85f3ae8e89d7ba5005cb, 0x5c2cc1223df995431dacd7998c75f02633d24e5ef68c05da67b40cb419e336d0, 0x29ac55643ef13a550eed466e163a08f74cfd3ad9c3426cd18d219b5a6d0cc6f7, 0x3776f14e01306aea9602ba2f8ae2ca8f68189693def9dd20000455b1532f858, 0x41d479f4f0ce708380c7ce2bc636a649edd17218d3549538e7261ca8fdc15163, 0x65add5926570f014f888705f10db95b7cbe026366d77886df8d29090d0be8d03, 0x5ec1d8e4f97253ca78ebb8a949297ee0cb9d0469bd25a013b68372fa5ca5fd07, 0x3e70843768e961946af6195c079d2d4ee5e70b4307061c5fcf94b36f6c07e349, 0x3120c5689c0f3640a1b7ce79f76732db213c1dcff27ea2dee9f39d902d7a1571, 0x4b9f4404da1673d3c4ecc4012dcd2140a5e6c958e34949ef0b23583c5b399340, 0x39e262134b87f086cb6a973908451d32d81c147f9135e1eb6907b4fa77e951e5, 0x6fd02c465d877fdcf2793dea2f65254c7f774c68e377feed442b3904d6e64a2d, 0x3300e271d71ba6aff850b3b854f214d2f53f11f3d1d76952e09085cfb8718766, 0x4ce01778c6718c3074e4e067b674c55d8c89d0beebe97880a09ad53a613581d8, 0x24a0ca697704a5c46b8a848b3f6c617bbf6aa65242a5c22525f0859ff074b06b, 0x6368a0131fb9f3cdb601e21b5835020640e24ad32e9ea4af79e818b6ff96071e, 0x37ca9126e2e412207805c88429c73d6a73c88481cb13bb714c70b6aadea14f03, 0x269f92eba04191352ffcf195ef822193b37df8767dedbfa814fa256bcbf4264d, 0x19c05cb50ff7e89794961abda7e52871093331904daf5a46f7f121231b6a8e6f, 0x5fa3360c1a11e5310cbc496841f0ad07ceb1dc3196c52987377a098acab6b517, 0x2a7880fd8ac477f2e3a647bad9870321891ac7952539f071d7805e4e4fce15f, 0x5fc05bc1a601417238046476d12cdbc8be712ea68985ca40e9dcfe3ff1aec45, 0x37de3dbf217f00757f14459c8342c75afa79f7d52a832dd72bd80303dfaba51e, 0x137521a6126adc90a28c31462fcf6a431a5a2c2acf96a1e908e624925fd2d303, 0x2bd1d12b16ec8ca5d8f6c66be74250b4047b92df9b5382ec27b9211729bc30a3, 0x39851c157107714f276dca2c1dece738feee830522d8c0e0a5bcaa3ae6773185, 0x65541612ca779ee8959b2cfa386990a587483e8c5d8504dbe711da8a794eb1db, 0x6541bd52c4380db798fab76bd9dfe7624d07b83ba235cafdf9b7274cbf017857, 0x13e581eef316b4ae27db2d04566be4175fa806675f292747bba9614740da7ff3, 0x57767807d511c453bd93e894ac0c27e9ce444b039aa2ba7392793b6fa77f678e, 0x50930514343db20951d5bfc0cab9fd5e0f5d979d4196d258f4bd9c1380c5d37b, 0x2c7bafec10befdffbf19c4b7c3ff154753dd0b71161683567de3545d967e14ab, 0x3c3a57286fd72fc38ed759ded10d08ad423ea86ea035dd75da0355cc7655ec32, 0x1a54c0d03ca80b946132d131b5fca3e66cbddf6dc139f8986201a9726e20c13d, 0x333805ea32c93ad530a510449d43d9a6b2e0aa557274e9d0d39109c2f0a04adf, 0x22c345b2ab4083f1a8469a4a6fe40a281e7106a7712e2983851ad8f033694d9b, 0x4dc42cf7d0f7d2a92f802529a7de72ec2fd8361220cc5d05d75c9f1865e7f723, 0x793ba2ce72d70b5d73b8083a4e95afbb0a971c249ffcb0bca3f764aaaa5a5bd, 0x200ff046bc82370007e7c3487164c7f60d28edc90c256ed5d9c69f3cd956e348, 0x320125fdc451a54e082e50bcc434e9a064fdf4c55fe7995507d67b1313877b27, 0x651129b8a73d124aa4433894473087e7d7f37128e8384995e3a463668628beaa, 0x471ad3fc67177c64becc3adc56cfc6876fb9a772b6530e77e7e57aed9a8072c0, 0x44d445d734797d7beb4839203ff08bdf9a797a963d8ebefd47e6bb4ea86d70f, 0x31bc104c4d6aff4434d9f0bc1b07e75851f5144b9e108768a21ca9720419a68, 0x6c7ce1c1ede799c8294d0d44c27d9253f4f3d428f0fb19c44a48bf3338b9ada5, 0x441872c66fb4cf307ad38f576227d8ca36ed27a79d956bdaaedb5af027cabf71, 0x4de714f855ab955ee16838afe6eef7c1bd86420ffe5b38fbd03e974e75f5f6da, 0x31d54dc8f30573856b1399170e67936940be2d2dd2e1f495fcd1cc85a4d6f8e9, 0x311ecea5dcecba3fdb8697630f5c2ac30e2b0d965dd3fa3afa7f5021ba6ab4a0, 0x3ee46cc2a1923e9ec18c44cc8ab6cfb05499ebcd205fa72ef01c12ec26cf7ca6, 0x1f18e34f9ea7aa5ce51517b457dc09ec969bc4295260f6577a2b19a3c66079f6, 0x43fdcb29009c989c91bac14f03f965d4f166d88b65697d50afb9f8b0e1252ae1, 0x46d5b52ad25600a06b03e317b5bb9e3e5ed11acc6b0f5502ae7ea49ded3bc7b1, 0x59c46a7d7753d1edab0c11c5b8702eca0ea1998da80c5b2a1b80197374730a0f, 0xbab978fde3fc0e3e6d548af872fa5c54f355eef75edfca595e8f941832cec8c, 0x1fbc2a891df0fd4412610ea484166ce3b3bfde59013722efd2035efc3afc1ad, 0x6b03aa6e143165a19df44dd0759e66c5ca4180095dec77b36b14631fa4c36cc0, 0x660f4b39180ea65a6b5edb7c7ee256cb4842805e43d7d6b2678ecbac28e34b3, 0x28762174f4de073705438542e3795b42f3340298b3b3efec6ad1412aa20c7446, 0x20de0a9cfb9fc69bf0d04731feebfae0bf31724ce1661f3db742a727792c84c1, 0xec4107fea71901608b343880aeff798e70f1ccef3b8c039488824035137608f, 0x5ca63f5b2971aa9920e8b1bcd306e962f42dfc78e0754a743c77cd7691507ace, 0x517b6230ee5d55b7978962a3d2eb59691daa279e3e8d20ade1f2397e73b923c2, 0xc75b45454a03a8c6453c44525617d665237197563b4b5917cd7704404ede00f, 0x47a4c02539ff9f1e5f8cd2692c0599f4d10814459e69179419bcf031db1eeb93, 0x4752b5d4f85a29f1710092716c0b9fdd85615245ac80dd9d47e2c3cbcefa15a5, 0x353ac9bbb3a21129e699be53aa990896e7eaf043d0bb44a33617d63e5e609a41, 0xa36ee0b97ab79014796ded788202766f300dc865e8b4e9f683201e5e016139e, 0x126aaaba3f1ad78d1201b630ae2ec82cfbd4f8ad3d3a76cdbc2b2a285c50dff8, 0x251cd012d238bde18b2717d7702d03efda693a53ca69536621ba5b7deb28e8e, 0x10ff286b951653a16dc642e6269f41dba1c651cb4c19278add6c21315d377667, 0x8d744700e278080ec489a0d3a5e6efe972426c5a6499ff7bfbbc00c7ec99cfe, 0x3b09e63023f9fb0a6c5be4328a2170a9b1517a9ebbced6954e54fb559e3384a, 0x109b58719bc7d954de2946683f415e070dce7826e5233c7e2f5e5ef12e544cb7, 0x626ee9c21c90179c1c4b2f55b8e4a61cc9acc5a621d65730148b71480d80057, 0x2d01e1fd2cbb2ee923defcf3edbb258b873f1e85a6708fed61f1cdb97516c2c0, 0x16bd833ba6efbd3877ebac15b4a283f1093a9fd8af8136dd4744eb258c5653b1, 0x23cfccebf761a8242605c0ca8d713dd975e0438bb3f72b04172f522dfe3b07f6, 0x1e6fc00d987296ec24e7762a28a1c0b1864d757acee81c63576c992fac3eb02e, 0x577b818cea85ccc01289663318d756cc6fe3d561b250ad3803468a9a4f720358, 0x52f8540c2a7064b22d00f265651cdb8c15fe1f294583318b859c84738718b426, 0x11f642195cb7dcd120bc38290d42a3a60289954a40725e1a8433a74f0ea8333d, 0x68e0b2b467554d8fc285dbed24f517ba9e2ac99dcd7be6c0859b0b2ed7ce8f4d, 0x28463333e942e388e474501188d40793cd422e9e5937ed85a34538ad6092dbd9, 0x3cda2688ba5cb2610310f1ace23553df05cc50f2e812f4df686fd5d51d3c5072, 0x5cbeb47e3ed38641ddbed8dcb3bf8804ab5f1ae61482c94fa57c504dfd216737, 0x6781b028af3de2f510b35dc3c8d5ab59b0097f6b15d23e8e5c1588694404796a, 0x5403d81a4f8e880bb3a37b4e3db5f334e3a117258884199187d5306aa4270d3, 0x4a1a9c3a3bc4ba5ce8f3491cba815fc633d2c02bc309d7790d27fac9330d3ce1, 0x2ea5a993b4487061e1c5756c121699214f02dbf921b7d2bca8553debf04607f5, 0x1e93ccd1475131088c5032ac3409c27741cb2a6cc4ef94e6207a518428712a6c, 0x3b863d87fd5d4f86f95bdd99aad79c5133fa5fcdc9f4a02129a5b784a6cdeb9d, 0x6bb522888e40020b31be92641baf565af8361088d535c25274cfa59657788b5a, 0x13f442db5ccadf912d05e82b59118bfc3a68c751b855d96460cfb6bfc40f79ec, 0x4e031574eab4dde1d4a5f9e590966aa3b1824b661f53d9db1688255301d6a784, 0x52ced462a0b1b40c989858ea6b0eee1932243101054437588afbed79dd8fa9b3, 0x163e1e17e962a755ebaaa2199214f859d4e6950a80110b9ade689a0a262eedb6, 0x333a13fe9c0b21507b6fe577ca31fe5f2aff58801ee059069d365a1fa564e4fb, 0x583b244ce7784e2582d6222d16b1dd0abef09df0e17e772302a57e6383cd6303, 0x4ef9b2b14bd268cb5e46e59feedd415bf06eeca04faa7dc01d81076540b93435, 0xe9579de5831a7fcd185e1937b8f0b91b9477f61ef6f3e1b017cfef3f363bc61, 0x10e86ba5e1e193facd3431ec14eaaf6bb0aef098bdaef13b3f9abf16b18acc09, 0x2ac806ba8adbbd33b8724a74d582425511436041ec63a3955d860f0f17f5bbbd, 0x5c42dd3a00436bed4d10f08390125df9f61de962f010174ad2ade4b9b86341c3, 0x5fd5373e803bc76e01720e9395e968e76799bc3735df62c2a856913e92d03a2f, 0x17b56208aeaae887137effa3842dc4ba1d5598dc3674bedd67d9ce5987f9bbb2, 0x4f40948c2ba1c1279a5c9249e835be32f854aa55d0c4ff11590aed321cd1a573, 0x3c1c2e02d2cbc8c8e816dbb211f542820d8f47e50bd17191bb1b0f3f1978b27b, 0xb01358c8f6b56eac0be52ddba17267c62ef2d138683679291b6b22c12a671c6, 0x6558b73f934fa7b354325b7526996db2d5fb949e46b239cb76c35c340dbc8de1, 0x23e3f6f7d19832a68e4941572158f42a2abb77df1be3a4f76960e9993fef800a, 0x1132a7373532ac002bd5f70a16ea5aae2f8f2750f45b2f55710751bbf573dc5a, 0x6ac93344a2c8f97b8ae4ae6a26a0a9246a4881b39183572fbd6dfff1f8b2d15d, 0xa9f8179f7e7811f89491baeb4804d42eb86b3fa17cfe24e71dcc2478442cc11, 0x190ec1f0c0c61fabb3d31786f9b8aa5474acce76e93e7bd871a9a24821ef7a83, 0x1b979799749b0ee587cc099d025d696677a8dff6dda55f9fb55a412509b65aff, 0x7094a1cf9a5a5aaa35351d453a1c28d945e015de090d154a1b590517c280a752, 0x37253d369b1380046eaa3d39faa0458eed8af6658f9772b6b26ac367ebee07e, 0x496a7d6fb9e5a54def6e36147dc511b93daa07c2140ffbd68c1dfc41a325eae, 0xe2376779c5c0396db737262927ad9e5a2a9f47ec856633b9162ff240dd72b40, 0x40f9ba1cded3e8f195b09b7efcb707b1d9e9ef21d790a57afeb175a4757362e, 0x14e18fa2067dbfd02e67a44a3a14d129ff551260aa5496952e3f04872db12968, 0x51fa58d973ef5b18a100c3be35123a70c82c65db29b35cad636910bc7041ebc2, 0x1bd307082468d69e9e659c036d699463034f756508afbcf56620bd405c96b37c, 0x1d079b8ee38e8f196fed80abbfef66401e755316203c22a60e861b6a59a4600d, 0x4ed62e95bd773e00adcc6cb973c5cdd51dbe58c41fbcac50b8a8fabc89f1d223, 0x6be6405da3829f679893a8b1f8d6f192978d4f0fcb4e822a0f7a4ced532113d5, 0x359a84400ef00f958bbe069a354df2c13e46a583a236d0680519296e4425fd6f, 0x350a069dc2fe1f82e22210de0d1b6f494861522d0792509856d8e45293ffe86f, 0x48b1780df830b5971a1af7e92e1a5fd364b5adfc4cd13c4142b8cf0d60a3fc46, 0x45d6b3f9f006d1e6ab281d11abe674d16ce823e422a75f4c4d99085dd5135c54, 0x6cf0078bf742ad7edb26fc82aa6daef523f6393c9443e36396e6f7415c7dde30, 0x13754ea9f30a090a6d8396c10576698d7734d834feb5e1229b4a74bf10610b27, 0x5166983c9b10bcb96a5f3e675e1a6afd64e685f2535ef65b266f2fba19b7f056, 0xda99f2eef315040e2bd61859fc593573b25ad667e4023ff0fba928d435f634c, 0x55a2270c1513a05cc9b992fbc9e9d01838b85c132c75dce76595c00216b44b70, 0x235b54021ca8d127355edccb4825fdae90796f02e2b49a42d10f1b900bca2484, 0x1cfde595fb3f503e53fb5463757ef52fd22eec431fa77bae6d6bfa3e72dac616, 0x54bbbd24444be7d7d4010cdaf6df075b8b140ce2ce1091f1f09a7fb184c8ebc8, 0x50817cc5e30ce6a70dac39097945cedb8995d141ab10cbc1b6c8b7534e00e897, 0x75ce8e5f19c53a154ebafd22235737bc095878012e9b6fcc636f4e4e0d683a7, 0x59279d1df292e334a1ba253a05d6b75d47b0a25a8b22a2c86c2f9c06f4ec7bbe, 0x60268137bb5f0d39e4bc2e19056d03b58ce48e2db2f9250f062fb00cff4e237c, 0x6db840958dc712808da0016b482f9f070caa240b2f767ee547c75304ce9ab98f, 0xa1ed129125bda0112e5df82f028bd67a158ca797a5d8310ebae832a844044af, 0x61b3d3cfe256f4d99a3f45e98cfe08e5213c77079224ecbeb3bc49744412bf7, 0x6500e588affe89a121e0fa1df95405bb7bce06b4e3afec2d6c3fe3e3d36d3068, 0xa4cdfce02feb7624b2f994c0ae9b5c5ba82151eaee4b96489c4280f7511e5df, 0x54679a9e2413790a7061c980439af065de31040e778236e18c2539ebcae4a5ff, 0x64d82ba1a4e26b7e1f5e1aec8b0a8d059b003fd1e760fdaee96faf259e840c65, 0x6e15067b545069ebc94346ef4c1cfb8baeefb9000136814cb53533e4c16ac781, 0x3aa1fab732ee2b0e08889ca576a4162c5b4b42dd0c232e13cdc66218613981d3, 0x435cc2050af5db98b7dbe919c2116b4812d888ff09530a0de8d014e05e8e7739, 0x6220d80e0a712ad8b658708d041debd13f6684eb65d69027349951b468801673, 0x2bce927f583462f607319e5dcfcec6f4690eab801f984b8fb794b6fa19d9e4c1, 0x2af0770d7b80a2e464977a19c4bbd45a10ce03edd2c2d611ac848f70ad6a7d91, 0x285e38901e40eb1dce2445631d9b118fe74852d6f7a2601551bd846c572fb5c0, 0x658c4a8c8892eafa88a608ee2dea0e5d4df0c61b713b2a16260cb3dcd1b29453, 0x5bf96771c2cc76f5f203ef0f0ddd603ce5086c3048806e520f2720d1472be8a7, 0x1844caf763c2f6076753a988ec4553f0211a9525aa6a83d6a57a91220abdb17d, 0x6e5a89752d6131a035dda41ad9807bde2f31f2b707e89889f2cae7b527a974ab, 0x52e3f18119c163d9aad9d551c4eccbba0b0b8b7c40282b18601bda3bdcff7ebd, 0x2c164e5b0ae468646b5b0f9fef635a4052db1484a144fe5ec54cad948ba991f7, 0x62b8a6d2a76dd6ff7ba8e087aa7b47eb129765e277909d53cc4ecbe88c47d47b, 0x1aa8aec46ec48edcb0829f95caefa63e9dddd0516a532e7498056dfa98067411, 0x73c7923a0837e8b45c6a4a3559b5c6d6f165bea9f2275f8806e32183ecaeb051, 0x38a7c0b07167fc3d1b6948a7536d1af585fa0bf91494c2af839af38fc7f9beb1, 0x47d9a24ff7cfb7507468d995025786dd02155ecfc9856bf4431f405c5bc09cb1, 0x155ab07a6afd8168ef5ad126cdf27dbff1de0ee7da2ab2f09d2a7d32c5919483, 0x2aa023a82780edd2686d2850e6eec82048f9264df569822454cd73f2fdb4aca3, 0x1a4a2c435febba36f0472f7ec5275d1840f226dec453384f353eec3b9dca285c, 0x2c7fc58ebb20f67094a7924a0012bbc6592895b8e6c5a9cf4b5892c9e5429ce5, 0x6fe7d308ca41bf70260c5debd192a160c15def6ca2bc1243e30cecac571823cf, 0x403927217a58fcebacb473f4488f64fcd34ea7285e14ab03789e270e8c157048, 0x3680f5645a661a93189dc4a13e1bb7e17fee77c61b70aaafec48c0fd2390871c, 0x13d3c227a4cbb75d1d485a679e910835c0e09c536cc8072b422fe31821f5b26f, 0x402addcd2ebfa88d1ed9703753f640b7383e53a4f411615c3ba84f80e6a9e3c5, 0x1b92ca6c498732ed2c6b94c3a0f0ea4fa07641131c2021252065ebc50583c701, 0x61a1a87bd3d65a289637242e49e0e32885ca094f961a83d12355cd729d78685d, 0x4817216227b93d04e4a0c2278d2220c7f29690f1deb350a1d5fccfae826337a8, 0x708c56dc7b6cb68378a6c68cfab383faa99a12e9b9eee97e5cefdffd6b87d20d, 0x17890054d1d57d0e47a61ab3bdaf323b9b1c68a9eaf57b4389581b6ec8a88a36, 0x637d2450e890b359978496fe942e9003ea689bb969e7f776783aa06b34d5d38b, 0x2a73dfa6d869242addffdcf2b0c86d0fe26b9f55deb90bc975742fc528bbe185, 0x6553ab4cf212cabbb99d38277a6c0515c6a4d285829578243d9b745378d39027, 0x2722329291d43d1d132ad899ed81151ab94e32d21ece48e4c9083616d287d233, 0x67599e34b19af9f2b6756cf7ebc43210b6103addf523bd2182ff14ef8e7e0d0, 0x532827a64a2fb6724624704a2a80f58ba7b0ed25ab60b0162f62135461ea546, 0xdba81c049a944e92e7fbc3fe88c3bbd5d888aa245e5e0fde78038bf69f0998, 0x210add0c10e201d58264f9fa06953ce771e32702ed5cd0a3123bef765140d93, 0x31afcd049d56dde37624819089d6a7b3ba5cf300138add27fba5f8249bd02b3c, 0x6c034cb4ec406b0ee3f27507e2ba528dcebf19f1bef392f076b8fbe23b862f8e, 0x2882312bc78d9389c86bafa5de65a72f25f83f6df184744e033a3885257199b8, 0x574b6dd768ba541c94c7216ce6a4afc44c3e270eac83cf0340ac6280fb5b4d3c, 0x5e463cefafe0125e832729d65cf702acb91b8ba917eb2f010e0778b16e3f4835, 0x40aad91ef2e811b4978bfbb525619cb3bbed3174b5f94971536c5fe8a6943835, 0x41899e9dfd8c1167590deb471e4d93f6b7c09dd986a95e4acc94b737a6016260, 0x71f4ae0463e4724bb4dd795ca97325ae255354523d7f3824604a10eca0874830, 0x5b5bee348147816836a438c3faade9c5728a795885f1b2e14ac635a8eff21ba4, 0x45aa7aa319eff7dce5949ce505926eea4e30561cb60655048f1d9b45ed31937d, 0x2f35dcd01886e8a5b7ca5d8f3072186e173a0a936dc5a1a6e18781d69538b550, 0x650e09687d04a0323d6a28424282c7cafcacfba71c323995b5aeac4fb3999cbd, 0x62374f1866313a81633340a726ec586f41c713b2e2bb79a5a1e16c1d3bad8fb9, 0x3888f5f47a08ce18be3ad1d467ac158603a74e5b0918cc7255ca3ba7a7f3706d, 0x2c5a8d4b740e5834050a8f3db066d6ad16dce615fc237c12c677f9c69ac29b00, 0x65ce573b52bcc8c9b9831b00fe9878d37d0c0c70f8fe004c82c0b62629ee4736, 0xb72e313480a052aa61fb9ab904e51f8e74edb80c44f96e6fe19bd3caa468a7, 0x69b06227f08d3dd6302121d749f12585c5ae136a307cd6131463a9ca23f4be88, 0x13d97de1c47af7f28f36925f019f1443b541f3842d250bbe7efb13b512a00c29, 0x1bd917d7cdd0ad7bff673a704fa0c352d0006b9c40a79b5b6019a9818c7962d0, 0x4979920174391d815fbd4f04f07725f764db8eb98977bdef287aed62f16bfafe, 0x3ed4ae3871f5df953b704ce282ac3827b0dab5276700b35ead5627f10321acdf, 0x653e92cc748ba173e910cbfe4fe602e23c0de6abac18156d09a7cd268ab53952, 0x218dde04f23e54f48c4b1a37959bc540f9535adfdbdc492a601ad2da11dde657, 0x4589fdfeca01ed161c1819099bf64fb10497a45f8a14c4fdead07465f128f34c, 0x143377f9b9892645eade61a1a5ca6c575554abd54b7827419e5c6f940ffddb92, 0x717f1cd94d2b0780fa3f8a22244ba6de0f7e3832304e3eb637890277ae57d2a8, 0x53b705a0253692b0bb8898aaae65344a5ce154cc067afe30e55839be8e072b2f, 0x18bdec105f770de826e741f74c751b974095b214d4bb5488d276ebc382dc03cb, 0x66fee932ae1a1fe15a864fcbb0fe5f5d93a7f063c330220951c685ca573f93a9, 0x5ea2f10b42823de63ae2909d5cc688ff3e9e05fe9538e1c1a6386699aee775a8, 0x4afe36a759753b75747af17c5c50e928487059faec743f5754f3766e4f05a2cd, 0x378971763bd174db9525f4f81235f9769c03ffe402589ff14e7268822b450af6, 0xbcc2ccb9a5bda93c5a34594f6a06bfda4e300336f8b2cfc47d1f396a9910d51, 0x3c14910b272d37303ee6dfa28790bfb71aa22d4f2c7eb00f81a03d9d88d81daa, 0x495fb89898780224b22e057381b684923100ecef351f1460be680ec28dcb41fa, 0x2917a596d1de28dbaa6aa254f5cb4e5bf3b3ed8ca10e07b31dfd894acedeacfe, 0x133b42983a475227714322a680d1948ef5000f78925bfeb0de6b53e275e6e3ab, 0x42655d0eac68c0db6bb125d5c3c5d544076b621ff9f78b1f760019fe59bb7609, 0x2e3e1f9cd88bffebc0a7055f84a1cc49c9b3dc94b52d41b5d57d9f2a8304cddc, 0x250b830962018fb122be4d1efa1aab1c058fc74d0b995efd2f64e25945d1c02c, 0x33bd918860bd677b7e2cf2620c483159fb5c29160430c3d18aa41d8d1b9e5701, 0x18eea235cdb56cd476c1d4921e236901c52092b1e5f05c6e8dc600e45cbfaa7d, 0x4d22216bdf214d1f519ae227490d3057e764e2accffec9f717f0c68954e0d9c0, 0x30dc6b767cc5f70b5a5d1c306531fbf00358deaf10a043abce8f3cbf0e6c6d0a, 0x6ab75d4e80a32df6f952aa8550fff9c6ca456e06593d24c9e4363d8e98d5614e, 0x4741a8ffe005388bc8ac05195f6fb523b8813dc736890a2c33a4282813d52129, 0x2f776c360c07d83e9ac8bf218f1fc508d7e62170260b42f1889c2e758fd1acb5, 0x678895499a3d5955b1ba0dbd0bb16e6fddb33bb4e8526eec9283b5b61988b23d, 0x736437aa59ddc7a71578361d207beb2795c56b3ef15440f38fab9427b48ef2ff, 0x27d99b7749b3ef9f2054080f63c0461ed5ce1e8bd0d609356a64fe4b76d945d, 0x6273a4dfbcd7f89c5e33a90bb6bd90af2221083bf837f24432895d65b9e240a4, 0x65fabd41ede66cee46effb42e29f428039d46ad51a0f50645cb2350307d0059, 0x48c6d22140df3ecc189956daf9675f65e978070196eb8180d23f922a1eb7e65, 0x22986c74d15bf1b0cad9cb57009051b7a0c403cf4a4bc39510913c30a52b82b5, 0x2b70daf7f241190820ba9e78291becbbefc581ce747276d7e3167aef565fc46b, 0x1c7f7a25b6fb9bb999d7f6f2c80203fd8ab67b165994acf94566675c6d641a3c, 0x3953b3c7cdf2b70cfd5a1fc4d9ea48450855e55376bdd603524f67f362585c23, 0x2ecf2efdefcd8465824051c705922e141a360fada24325a9a4fee360b3c960e2, 0x48e6a8afad50347f9e3c07673c592fd644796cd20515a3744f9429487826853c, 0x3e840457c2be19a13ceee6812f01bd1b27faf4b1d95b039e374361867591a929, 0x3156233b14f276035bace1eac5da205c8dfe4943f3c04d4731707563be2cdb, 0x1da4778f5c40b118d85a0c849a17275d55159e439a5dfebd10da76f0cc2a9a29, 0x1fc747d4ecef0e3e36461657efb1b9b105caa22522f144b7bcdb6dbbca4ed87d, 0x18ac92c3c72a2153bb47abd6e918ff92b767b0d804d4554a4b877e3b5324f451, 0x48f2df7e88b670e02b64bb821d8fa9b17571439aa644a9964b963f6dc648832d, 0x30e3530840ac10ad79b836d631520be2d2f1849942803bbc86f5cf76a0e47b99, 0x242f89b3efb350b53a6f5a5f2648f7c5601f7f686e8e3001dc8079cc2f05a818, 0x55e9ef73fe4542b2b148223121f23192933fab32c814a414d41dfe1d5d6fe916, 0x3a8b564040eaa1c2aebdc7a66977923bf9156b620b053f3afb8aa4c725b01bc1, 0x17d8f2aee54058c0914c353671f5ffbb62e8bd19d4930ff6f32752ee8aa5eead, 0x3764bca5a6ada187dbf80846c68652b883c1147ab635678f23ee6b975b064045, 0x69b35c680026f97480c8333b206718d439f69b4ebab35d3b0c2bf226054ef63b, 0x410a2d43ed7b84fc566b7899643f511b8793374c47945c82a62d80060848d08a, 0x1a95c0c5003513b8ec942594c5834de8398c5164c12822fbc6e53f48b63e2b3d, 0x4564c0d4d4f5302190175921d627a2a2faa36472b3a75832de28198ca626277d, 0x8078884c118d16f0a481ce9044b6c73aee353d6bf435e17f785ede25b533a15, 0x32f51afd2fa9485e210dc87a356b3a4a278a41d1a2a03b85587d81266ec43e34, 0x574a1866c906bb420f8a41b5b11c07e43504904e8322752418685ac95eac0404, 0x62e884d70af500e0303b02b8dc27cc2e9cf71292cd8052bfccb16b419c91a0e4, 0x1a9146a9947b69d832a626f823efd8f21716d9ca2a0983d77ddf3163cfc2711f, 0x77f9f52f154007d2c6d736892a241ac76507e7b873b5d80ba1758f1807718ec, 0x29d812ffda2556a71e8470f1220a7df49af8bb728485901c585af004a8f65b4c, 0x1e5c9991f38493c74fca9940bf1a1fa4781a591fb5b6a13335bd1350f3f7c03f, 0x55345e2a97717a7c9e080ca0f9eb697055f71b90fb322c4bd711f0f36235c0d8, 0x34aec4265c2468a1a3ed5d2cbcaf79cd1ff5f1c9545bc1265b7d479c2eebfbb1, 0x1812bfaef15e2529ea82945589f3e7b52a47b655f511379a5f5a54bcfccda5ba, 0xe95a5371589766641f04d0ffa52569423e88ea8ce301dcd6953ff817f1324e, 0x2a5ae991d44d01a1b40e9b19eac570881f532052b1e000c0bb23d7f04bd64740, 0x677c09e2b52a3932d4564416243424404f683a7e6f8bfa71d878a3433b927df, 0x1a5e17706110b5e75a084fdb75e4962ea807dbb957f408e7e6b0c51cbc8e381b, 0x34dc05e00f520f33e6158acb7fe03c6630ac1558e95190e8d43dc0f0f3a53c04, 0x694a1eeb45c98a6e7218bb599df0b7dff8ca75253477b02a0b908144210b8478, 0x5e5d7d65a57280fe8c91a968930fd2e62c657bbdec886cece4ba8a01990fba58, 0x56bb094ecde0b4cecb3f109b2d0583a5bab8e1b2e0f5b85f05ecbe2020129de0, 0x30f1bdc2a3f2441ba76f16622913286277238102a1356b137ec537cc54cab7fc, 0x7292c552656e26e4f547b5527bdfaae78f8b7c16e40551d1ebc9db7d79f0739, 0x3296c00d6028eb1803e4abb0c1152b34b99b7a50fc6eca1fcfa534503c08e44b, 0x2b98d1c5c5a9cfc2ef8aa4a035ebd9a51d7702acc442ec9a600c4ccaa9141789, 0x147687d1b63c89d8639325c16325cc350f20796a6b783f1be75d05502eb3775, 0x3ae041a138a470f5145bc5b8897fecb2d0f7bcd3b7ac9d7566da9adf775a4fb4, 0x630743940b4d167a1bbd5cb42e3ef8a207ea3b526a384e49ca8974c82e11cbee, 0x7008501fc707b08e07d1c3267e9b0399f504f508b1c6018e125b0d1e68d0e169, 0x67a4ee7b0f6e14e0aa4f0bb8bfedbdf1860ad2e3eb0f8e6e59bf2a664472e8ed, 0x70d29c69ee57f5ebbcafa3ff6eb36aa52b60447f112fb0c15c95452326a34a15, 0x613b922f283aa18cb9062c23d5f87904496438336dd5e4bce58eac2dcd2e8e2c, 0x6ab564ca7650b6468851108f7562f0265f0a38436fc2ba209aae2bf9eca72a4a, 0x6096aa659b02f41382d76e5a939331fef65927c02b9d47aaf490992b7b5baf17, 0x4c3aa1577c4bd12b2cd88a7b50fb9fadf8aa365c9ed14a0059f8ccd1acfa568d, 0x29827307e93875cf86e4d03ba256f6c4e1d9088a956bb982c4d1b95eae77453d, 0x58917f6fd650177fc43c2b5a7e765e8241f2fc897a449f4fecbd29717bc61749, 0x2fb70937ec92e4128c9a228e9baa222e724429a93b6894a7e93064893a87824d, 0x3e6a61a470f602f4c7201f5c2d646ff80e34a80f4902588b273d93c389c20054, 0x57224cd7d3197875a8141e5539efabb52c0db30d183c4de56f631499bceafa10, 0x1d3fb81dfae9ff2a80e62e6ae9989938bd0a346f9e694040a3dc0d3f1ac8babe, 0x1de7beda44bcdf35c2b6f30ae7d4e900706915396f1721a2896299f24944594, 0x37f8315e2e0c6cf949cfbc44a7f3d0cb831e72f220a7335cd7e285c9040955a0, 0x5fb66b8f50dd10cc0ca33e1cfefe458ab6df03194b7035505482e8d33b49cb46, 0x11dbb130a9d53ed0ca6f2b451c7de7c1006b0564c0d273b36ea397037308f959, 0x3b089a2b5f35236cd54ed5203c269dd4d4bcbe4f2bd1eaa4ee4dd8b518541213, 0x2547e9f3ae6954b6753efb03f30e6169994c91054bc0e5c3c370fe85e09bf5c6, 0x6ec618d07f8a461dd2b2684db381cf106b5a2cd54067214272e1246dcf822943, 0x5a5ea3661905a068b91fffe774c66525dea92327cc1d13fab1df7028569cfecf, 0x7379ca0b005b5b9f919028ba46ef0779ae88ad4f25be2f171aa4e56816175869, 0x438e3eabd932001810e5458567bcd5af6b365cc1680a1e89261cc71e21bca397, 0x6570387812ea9857a9887f56e38656b284b464f8ee6cc04de0dad5b59db3a0ad, 0x4a9a215f497a6f59c1cdfec2dd729db8349b17645b0864110154b532a1a12498, 0x1255a8c608c44f721e05c0eb6494463374fbcbd025efba4822e874c023c51150, 0x17d5ce4e9049045a4b6f24d148c63d308a95f164fffd75d6042383e71ab65cd2, 0x32f6a42501a394b30ba4f6f1911368dfbce31f7400ef0fa5218f2f1363a4f963, 0x4711e4e22f9b805c6d08ba41947136fb2f3509341f6a234080b5701e447faa91, 0x502e2997bc06ac43e71d886826e8dac5bf034eda3341781dfe9145bbf2a3133f, 0xfc0e7c9efbbe6f8b86dfa7f6b2caa1fcc3b11adbd1afe17eef0c4196241e3d2, 0x6479de0f3ce0437801a8c279ac09ec01521a9fcc67422087bf6fdf2f5514cb60, 0x5a70b54d23ef2a9a30729e83421b7f7298d57d877d886d989ef7bbaee231e301, 0x401f539f0f3df031c8dabe3bbf59865d67c4cead79cca5d3e877657e8b3f2b0f, 0x63b5172212c71fb81843145a7aebfb63d83ad17192b8944cf9d5c94c1ac872d0, 0x64cd1ef9fac52085adea8977d666c1c5d8c49b09499a01baac6be02e169ab7cc, 0x1842304e2867b44193fe5461f564b6a3a068a8a72df3f8a5bdaa13a7f097c952, 0x15e0d588e2a9946f94bfbf72e2cce1424c5870e6268cf1c6e5434a0395143de, 0x2b3f00bd278acc1e9bbdab5fda2844d9ecc29dffbae6663255cde6bcab700e33, 0x176cbf7d96f138131a34b3e1d1eb613aab3632663be190d965e161161c92006d, 0x1461c24468fb5496faf290dd9057b29af4033cc2bdea128d10a9c9442c34b39, 0x1d511e91742770f0797f8bd25adbe9e3a8460d8a6327e340c42f36d8994ba255, 0x43202ac05dd6e202d440d9d8bfba7f3e5cbf7a91836450b02e48087e5d7f7685, 0x3c4b4f5a2e2bca272824c1827034c61d619de51026653389cf7eedc8a83422ea, 0x288ed1cbf27dad3dd893ca0e6baa8f2d1597f9615dfd261d5ead9d101411dc84, 0x4513362ff1ba5e6e823859fb873ca39ebf3d92c53f616b02e4fb3a5623a2d9d3, 0x90b062de7b976d4cac1f2443d6b3dd5a378344915abe4a41a78e13c4d6588e2, 0x5568e919bfceb0a34802104eee08f33d5887f1a036f018072600da5f727a758b, 0x686e8ae7ea48cba700572e5bbaf1fca3410aef8f2847f13f9108c4f53ae567c3, 0x26d750f6e51b1c4bdb477f94ed41e3919a49d2dd618a73402d800d4dfc52267, 0x3f5ce61e5e122745a597f297e2c03ebd42f8629279d6f499104281041397e82c, 0x53b5a61e592b911aa5adaf82e1541f855aa897eee58ac270fc6961add6d253ea, 0x6997277e126c1d492d29258ea8083ef140ee989532098b8046416a0326a062b, 0x2e241b061139708d542a3c8eb677188e5da54327c50fc2f3959dd88cb29c6f38, 0xd867216cad3eb40207e3cb390c5f50bd9a6314483974b17551cb6152800c285, 0x4c596b5ecb0e719feeb8d0bc3a6f8985f953910c2094fb8fc821002c91479316, 0x50efc6490b6f97ed7e1637f9ceff47b0da4f48dc355dd98c9fc9ef78fd3dab99, 0x803c036d4545941822782509892a364dee2cadad34e6cee1fbf2d213d12a802, 0x15dbce639021d7efe8b08c31afc327fea2cd373a4d4c41485b4f443896b9b575, 0x5ed64c46f192774c7086eab312720bce48a3c43985046bb3a7fc4f14fea4da36, 0x31b4de8abfdb1bb09e2a85c0e1aed0f954d0b252258d470339c6d4320c22aafe, 0x674695877703a32475ae4e751e9584d99edea2ea04b073dadea45063069b71e3, 0x617e015486f4d75a16568437f63ac2da51e72df5a65e652d9f5d92eeb777ce3a, 0x1b54c98160128dd45b88d1f62b95ea21ff058a2c54dced804a276b27c5d7225d, 0x3a996eb01fedbdfba4029cea36b7065da3e7176b2bc57568044d69a421cda38d, 0x3ea45c20e535e45e5336e9013387f88e5a90ac053712bb4fb5e0da259ab4503d, 0xc4b71239020a4f09661bd048497a5204220b553d2fad3707b5dd8dfecf6dee, 0x5bd434e24133ddbb21b9dfc919bbdcddff4f62ab249c7272400d763f21ca3426, 0x6198caf7bc1db59e349d239898c6320b129296aec5961fcb6480662781845e59, 0x3662b84362e65a3503c464df0345db160e198f5974ae89b425d75e67cf98fb01, 0x21458de58ad8ea21a3be6ee3a4d6b711272cf8408f2a5e6e811335266c94afbe, 0x1530bc8466974294f40db121eca2b3dc760d2641e7c1a6ab4402fc5877a4251f, 0x26b4dacc88a979e9fed6bb23bfb0528118559667c038f2eeba7a161dc7f7f64d, 0x2d066b41dbfa101bb6cef9f0cca54ff11968c16db8af714b30cb84fce24a1b48, 0x331484ff84f609cc75aa24ffa480b1c664d65acb3cf554579e5ced64fd3bc34d, 0x521a83ec4562dcccec101bbbc210563857a3d57499d4feef5aaa6c6c1de2ccc7, 0x3710b16eaf5ae3665530586e8680b772d503fda9ec2365bb88f02e803fac1264, 0x539d1283ceaee687fa142d30f3ffc941de03b13f782fe4f90f734c6c2a7cdc74, 0x10979b19be9c825c8af935640c084c9d50c7b0830eb3148e3ea1830eab484477, 0xe9e94bb9d8519ba6721f6d0f6ced6e01fb11edaa70d30c8f969229166d29a7a, 0x4c32f7eb360f0f8aa275a125ac3c82eb6fcdb19e52c64804b51f3f07d05fe8a5, 0x4a77d3b272fb5bc2f9f7a5d7dc60aa887ddfb039b759c452da8b681b32e10be9, 0x510d75a104c7cb2bbb59fb0ebe5bb34be1e6faddaaf3ce90f81ab5070a33a97c, 0x29f38893632578b19f947727175fb4c61e4c33c03613ffd3bd6cf759d657eeb, 0x52fb241220aa8c9fb1dde0ab3a8a762628e08b615bc8385612d24461944138c6, 0x6a4d08823b0ae461a92f581631aa63a21927f22a8b8f06db8c69b97de1457845, 0x689446ad03a967b5bc3e37dd3fefef415d6e1b4aabe060bb5349f083ebeccce4, 0x52c4fbe529d7d390f450e33c0fbefbffbea19849ebb1894330e5e001f8a44b3f, 0x625461681ad3bfbe5c57ea3b288ce547433b65b8425be880fcea921e700382b8, 0x2be0d8b90781728c4ead08fa74fd3a734a08515c5819ec3ca64c92390827821a, 0x4579ec32998a4f82fc53391c25da6957c95f8c9a8bcaa3a63dcd4a9b2ad7d852, 0x710eb8f268c5db12520f0ad448c2b990e26122d6020ae2cea85375734327950f, 0x5255c9426396c22591601c13ff359ca873897815aa95efb7b27530f2620ad0d4, 0x1db4a9e20ac4ec4a5562a164addd9fd8a226cdc6913faaea24775f865a721ea6, 0x53a4bc31a0e7944acbbe00a823491bef57d2e03855b0a13b5c9a22b2d1d11555, 0x32de66271e97050d8ed5b61d0fdf040e3c2f1587ae019ce8bc8a6b5885893750, 0x1a91d4fc6618bc8ee95d08707e39ad03466e8b5ace7d34fb7bfd5bde4d01a8c, 0x1786172a65e46510fb746bcde70ededde9fa508c763b421d0eaa68d71b30e30, 0x13dc715f65d49196eff579e7f298dcee142399ebbcf65390c8cfdb0e731a175f, 0x369ccfc4485de08cd80e997cca708742bc48a400d9ae40ed317230baac589f40, 0x3822242dd1b38eaf9508d744260694c6c62fab64e6f045a66951bb9dd8d980bc, 0x3f62e3118a9eae9f8da24d898467fe58a03b3912113518b69c963bf28e9fd891, 0x6fcc3a9f6660cf3a475e1dad489e1eeae100b89663af6521300695fb2b817a59, 0x24ebca9cdf9343e24d81f9a0040358ee32ac40fed460a6e9df9ff3f677636190, 0x4eded070881ca1b820cc527d5fc2b2387a2b6188de05d8318755821289db3bdd, 0x4310359cbb1a442c3d7d21d0858e8cdf5838e99ecd2c917766fb0a1ffc86bd9d, 0x657041ce2040ea99b61383cc9f5c872742b613b1e98fa51edace9ff2d141b053, 0x65312cc29080a9d02bf47b89357d1d8301b13f578f13167ff22527dd2fcccc28, 0x6f080a429f29336f48256c6d2d4eb60e28491e4e6cb09b8ae7c0eafd5c50470d, 0x26045ca5d2fe70b69f6cbb81b705d03ffcd465a7921ff9b7bedc512e3966253b, 0x67f252c2d3b734f8e9b5af5a322ab0f58e759fcb590b3f1843fd7c57369b5f96, 0x11f8f61416d2bee0c05cf619b87f31e91b25f619cce4704915fdb2656ca41d84, 0x61ac16f5b7bc8ddee91e20a389be0d2199bfe53ef6bfdebcee11952a3aff81a3, 0x59f3aca10b55367b639561499c34a9a4c874616265ef64204c3e47213d960d2f, 0x2c10c8c0abdee43b903efc37fc48a4fc17e5048db0fbff0b8ea181091fc3d4ba, 0x46ada3ff5b3406b94a4fa91dfbb524e198bc3444b2bdad6ea04dcec4bed6deda, 0x2cc0ac8c1c91d520d3c08d29bb5877848eccc54bfd34070d755824d9f18d7d09, 0x53614b5f8a5ed402d58c5aa03a53dafc6c0e163da330b219ba931008281ad0a3, 0x74158f7237fdd63313f83c58a39e25fe994d9611ad6538e25c3632f8a959b78, 0x15826a404b7acaffb783fb69df22b83d00106d98cc9161181a9575c206af0cce, 0x6ecb11007dc43a31e0af3ccfadb94c5568cf6bc95ef9be09afb5cdf6a88c53fa, 0x438ac6d0c435c88e7a01aafc9f8e55909dfd23bd5b42ef6d86e7f84832df138b, 0x5b3045e750397a02e7da86c17c5e710b7c7ab154443c8bbcc929031ce2180083, 0x82861360ee5f2c903c53ba631b1efd06a7fd85a6278d44d70997d4abe8c62a5, 0x5bfea3642b8aac325a5073da6cde6ac2d9730fb7002a305cc14db73fea5e6e06, 0x71c224f361d5fbcfbb3054cf849baee583e8b425880cd7dfa45540aa696c440a, 0x568d0909b5e82b808c4a7088824b337a11f6955bb4ddc6c98a6de9a1893bcd2e, 0x655d8d8dbc48baf9191fe749c3eb7018dc7b5619369c6dc61a1bec5498ad2075, 0x6b91e1597b921436102be6ee638baa14e923d66937fe28d1baefe193531f3251, 0x4a8ab6fa423c8d31b9d0d4db25c423201d4656b6f51c67127ee63c7aa87ea38f, 0x5a6d6708338ec8d68c414696de47ee47095993ffe782411efd2533f5f6a6801a, 0x1381999b4e09685f0524398a9228238c55eb070952212b5d9ba0646fff5136a1, 0x6a212c7581c4848b8c7abefe8d9f8bc502b6b985271e185a3fe3f7575abe25dd, 0x225de51926bad98150c823600fe5f4c086406e80bc5fa8f027f286d7ae4c1199, 0x3e8622542acf5748530a895e981f15ae050e0cc8e177edb055190a39e9bb31ac, 0x721a7e5b2fe3b2ca9ee52129905b9688b9bf46c26b090387c196fa8ef12df42c, 0x72608ee573c36724abba2f289a143b9c6f6471ad4fd68ab69a8ff700b31af307, 0x467e4dd523396bb8073d7c38327f44781fecc2fa40c3fda8d0c770aea1a39ac8, 0x4d7b58345dd8a8a99eebda589b68e8d6e0f28674a9f9d12f52fcfc574ed553c8, 0x1bc815df547c92cf20fd0601ba552eb7b2e185084e24337e114f30e8d2d14d54, 0x1b0fcae90ba15c86ca93c402acb95eab8590376486eb4ce136ca33f46f0d9518, 0x6c38df136cd97a8dc0d582f24bf166bd50a2e3884b635c94ac751d2dfaf5f606, 0x2c53b2e980d100fdca37628460a015f1cca58025cc6b4a596037730da2e38041, 0x4c065429ed74ea5d5686bbfdb8654e2d83ebb851c822cef6a181c670e3f24b66, 0x113f0d3fa76b7f1f018625c29f0e937d73cb24c86010e233b6ab6b0f97ab0382, 0x5c5f3bb2dd4eb632f789a8eb65a0ef0998ac0dd06d319c5f2419ee277283ad81, 0x288b8e35c3fb0cad7631fb6f9e7afd20b837a29e245af359b4acad44bc87150b, 0x32c432610e06c80e5a101bd7a892fa54ab19df01ceb06a5e67799515649fda06, 0x18457156f49e630017e0e4d766c97d6f78632a3b9296376dfbcfe5651feabc12, 0x2337ad1a55ac9cb2ac9bd6de7081e5f57d9b4113fc3d196a2c17506c171f7ed1, 0x3fabb856f6ad345391a0a83ac7ffaae9cca21aff2b3e13f58533497bcbca138e, 0x2477df2634230c4532cf4738e80bc04cc8d931b24978a51a134eb56c1302ba01, 0x8a7c3ce5d026f7db992eeffbcc96ff932adef5c0ad46df882b216ad9451dc6e, 0x6625d3559c710037c46e9e80542340b1f2f6fd6c3f3b083f5c6a9bdd40f702d, 0x72ca862012ad3873f26d4bfd947b4b0bbadd2a14c3890fae572325dc903c3a22, 0x399288e2b35dc5068f170edd79418241bb7d1551415620c60e2c9e910a6e19e9, 0x1dd326d9227d3e6645dd3e4f8b876f4730e7e117bf7b270966429970de9807ce, 0x37937b30894e08f3dca2aae9b1e8cf15259a86613a4216456dde2f17698bb074, 0x9da4a3ae2a425c1f298aa85bcc84cb4f3deec879cd16c04edd47c9c75139b16, 0x1954c4e41f04a9b1e4bddffe7a27c4cf26a8a0a100aafc68a6f11eee8a88286d, 0x5118044f5eddf3be01476e49ad1534482c53426340dd3ad0451aa82bea4b04c6, 0x3fbf57f7a607706155e68175b929d99932e4ea15e7a7266a8845e8d59dc8a9f1, 0x6d683a82f9dc973fbc7e35be5f3fca1b1523b95724c2e11e33f5799f86944132, 0x28e0da897d48244263d5cb321df38bd7d025037a68e2d3774b6f15ac046259c4, 0x14fe64a7449482bce3ad8e86ba8e8a667a9a9060939223db95b18b315ef4e8b6, 0x376472df6c1ba04f808ed1fddac5f97bae10f540aee646be0fe973c204553765, 0x74a54a23e2fa9572ffe5c45ad7be4ab7aed985436cccaee7ebc41184e458563, 0x2aaaede38a7c945343340a83e497f0a50745e4abc9f399e6b587eb3cde5cd874, 0x48bf84146f289b503a09b041e8fe4782057a62b19e111a981f3567798d827519, 0x28c22a5b3609dbccbaff07a2ea9d7cbbb04212722cf8c1b9c3a10e370dac94f1, 0x20084d3e96c8cab5db5ac17acb36e5c8277e56674d3aaf5c76765b0349683a53, 0x34af32dafafef943b10ceca8ee8f574745ad951947eda39bb6b7b2c16165e622, 0x30a020c4375298a604b7aa334c2c753dd5275db4feae6cfcf683d0998e773cef, 0x9f96993d122b108e8aced2c0697ad69984e3cbc93df06cc048ce0f207e43058, 0x5289a79f0576a266525d267cc1105c122fbd8ba2016c4f333de4768202957d9, 0x96376beecd60d1b0cb5e134c2b81fd6b0ef273074ad37686308e165672e05e2, 0x2a768fb7783920e189ba6f9fa750d36d923b59341ced6983cfdb8d7d55097c8d, 0x3520cc336f2b5e3f966cbcf404c1fc8739a8f0a8e92171402c0f7381f8d1ae1, 0x4ad3217aa4aa52a4bf9d9de9b11706fc9df9fd438457bcaf18e3abc2cb07f02a, 0x32e233a34ff67d72f8042c386a5dce40c7f2708ae2b0060fa594beb7602f7fb4, 0x222489c854bc9af73d7b171d5b3aa8c2d221bf87fc0bb669468de8889313d54d, 0x1456e664f728a58ccd120affb8d93617152a2aa58cbbce69ac92fe389a4f755f, 0x37f9c5d1af1c7b2babfcef7d44620d602a3c939e940bb348ee70d7e01e3d20be, 0x4ac11b55c7151319354dd53176b90f7235503ead57dbbb2ddf0a2eb2c59388ca, 0x297ea9b65084626db29d75514a7fb8bd137affd56468be9bde599f5ca077f1f2, 0x29e751c3fd72737b5aeec5d2a10a10871a86c410c6b1be43dddd290efd334613, 0x69cad7c84d4ab69dbaf9a81ee9c34808bfbf322720e57416ee857cc182f0e2a1, 0x2be639406b942bfbec31fca611ac5735fe9b831a6162eeb3389289b9c2760be9, 0x107c26e67e3f7a628d99b29213533115a8aca22dfacd1c8c7609d3fdb60eafae],
    M = [0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x61e5213528d4a2aebf2b28344c6688e80dd3574c7d266fd1a4fa4fa422222223, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x61e5213528d4a2aebf2b28344c6688e80dd3574c7d266fd1a4fa4fa422222223, 0x6c5e278af4d06f8bd6d77676d15a1247c32624721bd1f1d28b21642b9642c85a, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x61e5213528d4a2aebf2b28344c6688e80dd3574c7d266fd1a4fa4fa422222223, 0x6c5e278af4d06f8bd6d77676d15a1247c32624721bd1f1d28b21642b9642c85a, 0x766517d23564ece23f35a0b681aabbefa739815fa8d8326105726209df51b3c, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x61e5213528d4a2aebf2b28344c6688e80dd3574c7d266fd1a4fa4fa422222223, 0x6c5e278af4d06f8bd6d77676d15a1247c32624721bd1f1d28b21642b9642c85a, 0x766517d23564ece23f35a0b681aabbefa739815fa8d8326105726209df51b3c, 0x71835e816e14e0015cd34e32896e78da8ca9b0984553ba145aaaaaa9b0000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x61e5213528d4a2aebf2b28344c6688e80dd3574c7d266fd1a4fa4fa422222223, 0x6c5e278af4d06f8bd6d77676d15a1247c32624721bd1f1d28b21642b9642c85a, 0x766517d23564ece23f35a0b681aabbefa739815fa8d8326105726209df51b3c, 0x71835e816e14e0015cd34e32896e78da8ca9b0984553ba145aaaaaa9b0000001, 0x5789a824ac7c25219ed8161084a93aa0c1d857462f03fc52d6343eb0e0a72f06]).* from "../poseidon"
}
