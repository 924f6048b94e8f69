// generated by tools/gen_poseidon.py
module neptune_t2 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 2, RP = 55, IDX = 1,
    C = [0x525dd14d753a142ba9f083211a71385591c3aa1c56b69c6a35ffe039e9c9b72e, 0x172d5466ddbb9d7bc60989ba65c6fe86e2da5091f2a9a25846b6516122f2b31d, 0x16f1e2f64a06e439becf1d145551b14aee4a0e0170e3ee1bf0683a901d35a780, 0x6dc5804dde2978cea1b720da3733420367841051824d0bff4a8ac28a031312fc, 0x435c0a8975ff6b74b3a75390e7160e93346fc38be9b271895b17ffbe80487aa4, 0x4d2018108332e9c42c267a3568386cf2fe70bd4ef24dd5a314da6c27e7e772e6, 0x24dfd1459cbafa5385d739cb2b4e3a6232d544ce0eecaa9c740c8e91c442ca08, 0x73e9ef6b4c9a23d4f46efcc1310872437ceab8dfd38abb86bd09c331089f798f, 0x92aafd32b69b0a11813cd170a36a259778594f0b9b9daabc00c806825332e60, 0x4a4ee8b9ca83dd1ea921a4d49640b34e7bf3f0c41a858fe758e236af019c982, 0x19e8fcd04013604d84942c5c776a6e7385aae97e4ec583d13d804e99142a9bf4, 0x68cb8fc9e44a3c47eaac5c4e8adc1f2bf26c7ab26d09b4ec4c5a81f96eaabb74, 0x73e616873a94fb37a744776f3a8abf36724ebd37a1025530854973627a83b021, 0xad214b4173a0af1a430f109fa77e5c44cefafd71021c20d9df95ea2b66126a3, 0x54255c079a3c46ee06bce63328503f59eb6397fd21a8cf6bfe981f17e30b56e3, 0x62b0e1d2c6d593e4f3362b98f7bdadb492bfa0e7eee698f5d94b5c88a441e1bb, 0x190e444a74f0de5b17d1a57b7e03d7afdddcbee18ebd381494a3e8d42ed31295, 0x5a61e79a7c807af628c77737621ab6cab5e1713b099db2cb0123724562a23014, 0x20bcce5defa77ec45a4f08acbece638525ab4c4ab4fa46b16d5523beffc39e1f, 0x3742a666b23f2ac48e32dc864c8bf6e19e5bc25ba760c7b5aba6fe67da204f2e, 0x60e7a8abe08b8e6603d32fed1b1f4bfe0edfd40dcb9a86e9e5da32b496212496, 0x45f00883b2b896ad595204b01c7a0c27ccebb4191e25972ad23a21b1828030bc, 0x73d8d4eb80a0c3e4f57681c9aeff255f0c9f3013ee127ece8ccef03b0c7913ff, 0x165f0a7572efd11a80fb61ab17506b0c0f347521fad444ab8857965cd7f9eaaf, 0x477fc55cdcb5abe077f664084f6477b219c2555361fd4e3dbc46e5b3bb7aceee, 0x1954623987da960e2ab1ae06150926866bac46bf3052c26a608005de8519251, 0x394dce31661613fbe44f55c078c11b735b3207e3b7240d97101672a8f1ef11ba, 0x18912fd68a70669b640be2480d12e128c278b5f260c74bdd1d1d32a7f275c652, 0x4137e9d32794940019215f902392e2025f7d1ea0c15e66b20440d65db2283900, 0x560b4ba5c426d08f731ee759d6fd82d3b26bc5dbcab92abed5609aff80ecc613, 0x735d7f5c37a27777ad240ac812bff822951cc5770b477fc8ad503085f6564d75, 0x47733a97aba60a3d833ab21a7d99bf1dfcc56be08d7a5971ddb0ccd8c7e4540f, 0xbbaec42aeb021e1cad5890c36775365b75d309b477d9241c5c6b3ec0ba9464c, 0x38422407fb12ab48556018742a2a9bc138940c10f2aa880c31c2fcca6cf92b2c, 0x4dbadf46c133665028ad93e9068741aad738cd75184bf2c3dfa8de457ef56023, 0x3ae3cea92452e35bcdeec2760cf682e34b243a907756eb965767ca45a56fb3b5, 0x6f0b8bc279e6d87b6e0a7601b71910bae01fb80f209cdfbd528f90a736497761, 0x99f861072f1b76368065a7ec3f6a00798109f98448be7c2c6ba459923a5802b, 0xd5aae61edae4f345cc9ef6edd1e87e50d4288ef2bfd6c850c442eb627ecaa87, 0x1b1d2cbce71268906af7618ef56203e4054d553655340bbc25cb323c414b7e25, 0x6d5cbd8384230cafb6696453ddee74dd4a4a7f3a6fb6ce3527bf69c008110bb7, 0x2c7c7963720bbc8593c50f003bba67e0988ae7a058e673976470f0c4900bac14, 0x61e9253c2ea4a4ecea815d13b336b365891284902a78e795a3063cbce48dec32, 0x3ddb0d41bcf6a07f4621faebd0c66af2c3d8db9175decd34146c815b05edbe03, 0x41e076d9cc0020a35c7e56591d752bbb8475e2d088ffba319106466f7127234b, 0x704eb918533eda7c643f00e4834e4134b649b7ceccadfd7ec7b742ba82820f10, 0x6a34a4b6c49eb723fadefb6a1794316c172c918a44a78bd9c681142f8df7dcd3, 0x4e01728dd185b3b63c1f20db42a46c4a88e213d0c3051e27c0625e6e46da3c21, 0xd43faf5eeef61cd2177f05146dddf4f1056e3b8a7306283d8674d7e95f92aba, 0x428428704d547805e451ac846ea5ecaece2b4d87daa6ab26893000db889dc8ee, 0x1506f0e75fc2e93cd5404044e9e9e511e0b6c33eca66eaa1ccee552a552c2630, 0x6d8b5ac10404a0950894ea427f2b75d5060a03ea4bb4677ec2c9f2a4b37ecf83, 0x414f0c5e18fcc5c9a6f4453f72af8c16edae961e2eae29d89110b5bff791c4a4, 0x6b4a588dddd8a95b7d8fb8f7aa2b7cd4a9bc805290463063df465ecd03fe5a88, 0x47f4dbdd97bc48e112d288af3903cc3dcfa25f58b8e8857d825ce22f822696ea, 0x349803283118c7ebf662118b08466ae6c8d382795d6c6cbaa366e96084fd6219, 0x46d9130136f5f0f55fa7803b59c2501b55a8e21d563a07031882a5c15a64296c, 0x5dddb4af65fbac672b8c8ca3b3c5bd3b15fea292a1240f8e9243e3d95e683b74, 0x5a08f0993d1cfddd37b4accecf46ba4b6951484cc5fa3560e9e0f34397beddf5, 0x506878cf84c751f300f673ff25f13b315c1e2dfd18a0eb0a9877ab62c5d8d860, 0x4566ed5a220656e22ce4924f90f6e720608a2a6655113ebbbacacfe9134d2540, 0x4fb75d54d154d2f03d809a95b33116920ca6a429502137bc57079a80c40e28d, 0x1fd9ef33d9d841f11434d567a84d82f03b9dd8c847a75e2203c35620ab42fb3e, 0x5f47b3a0c35ace07287d0b90b0ab8af645420a1823d8d0d6e1f771eeda6c8518, 0x1dbba43efa56b799337f104d2ac13310d4b962657bea5f002dd52b787fb4e956, 0x168a329ea4e92c5740127432dc3bd569e765537a727595fcab50b2083b2cb500, 0x2e9a9b252b031b0066c936e3c57e4a1b6ad2fff78a6700bccdbdde4b548537c9, 0x1ccd7dade4cef9ddf72a09b72ccc97a2ba3b4092f6382636b2fe233453331198, 0x1b1766cfa616e0b976e33db43aa9056dbe180bba476d7157e97b40cf6699401a, 0x7b6a5eb5b506e403e05d5842890f89ca3a7f728634a33a52f74f4e601b30119, 0x6a9446edffe546cdeb63ab2328fd652f8036edbc0852a6c42761ba6864591d4b, 0x10f49d20cdb05abe6bee739970353772cc50a27c5957d93c1404a498eceedb57, 0x539cfcc167e028c4bc82a888c5fcbd7e1d7b2bb5d61880dcabfc8e34de5e4790, 0x582f1bef3a54b2e4313f4ff32976dcacfbf65ec851e2aac267a3731d8c965c48, 0x1952b53f6fff3ce4546458acfe4585eeada8056044b53fadc04b39e8710631b2, 0x163d412fd8cc88a455cfbb8aae44a74f7cd3b958885e85382556e16239a3740c, 0x34bb1a7fcc0b459bfc678294edea0c0e089da6eab23f2b3db3928ec6d45868e, 0x1e857ff1864bd67ead037e465b2c4ec698298e6cbaeeed36421af68f6e64ba44, 0x114b5c7dced8875c8576d2b57158360f3ea09bdd7aa6aa59842299b7e518b29c, 0x1c328ad71ed1104f65dc3ee6f2b415935af7ebd59061a175a70505ff88a45b5f, 0x3ecb20d77e358036b4228005e6a00358707794d8197271a9bf927cbb916a5aa3, 0x4abafe7b3c4f9e4803dab39c00b2b8b740223804bdee7a9fcee55fb85030e3c3, 0x1b069000335aadaae7febfb026fb3cea77521d5cdcd921141b22969a38d56174, 0x385995332b3d40e20c38579ed1802ff91806dbc1dca9fbf8f2c91cd04ecef4d1, 0x1076a87837451beac1c53e5ca899f3731ec4e647b415fc22258d0fc18ce3e47d, 0x63a4a7147b239d2d8472230110d7bb6bc0c522c2397c26679752005d2ae86eba, 0x3787c496e952797aedd9f8511ebc1b5e331f5add18b242b2949bc41e453f4e37, 0x6153d91639dd79ff736d5ee77b20415c548ed12a6b4b351664a57d1eeb51438a, 0x25e9df67b018c8869873fec9bfd19a7e4110defc3057b4d513d601056b4159d7, 0x5e5eb50b84e4f8a5c2efa8d90dd95b934b7bbf8f447ad779886bba0a93bb1bc6, 0x468177b12b34360563e9e2116004e819fab71214a3330010906d504d45b0b1ba, 0xfdd7442c0b370bcfa135d6091808a2da7d8b2bb760e7e96333f54bb72b45af5, 0x4f21211eb19db3d5f6e4d21e7d80437a44cdf5141b9e7c92018774afc4565875, 0x31d42f43c0e9754aca5c7416e231443bca1e59710fd4cabdae8abca45c168e18, 0x23473bcad1d17fde5278b9c2ac6a7b3c23c590cd41b09fbc8b036068a2267af5, 0x4f35ea296ca9de77af55fb6f24ab6cfab9892ca61533c61da95abd5a4e5cccec, 0x65b3ab16fa0ec46040507793a6370e941865ef3d7413560d9a9693f346c48cf3, 0x17b9f9db9620fc03cdfd1a7726a89bb19be4845c26c0132b2a0817eebc4ace10, 0x6b2628f0268bc3d7be11683bf31979482711960d91333b688e193a0067175a7d, 0x4a8dc8c9b4a7803c8eca0837b7146a870ce6e5d4301d798520031a7b28795cd3, 0x395ce76a2d3fc998f90aa342f39def435858c9f9ad595f7d6a0ce68e36ef6577, 0x4de80d9c5c8a037540c98da68ad9c69401443c0a0967cf4c2012ee4f354c89dc, 0x46f720e3db0e498534d5f4ca3ad44c5d8d5a96d138f61782c50c182fe2ebf82b, 0x4328da176481d6b99ec98396d8d26b253e6d64bce8502b660c0ff675b12f6eb1, 0x566f79fa6b5c084ca54ad3897bd305190c15ea0a485b0b15144943805aaf404b, 0x1a19ba00e6b1d9636faa804b41771d27eba1705ce1cae65636c27a5ce63725e6, 0x2be3022602b799b32e0dbdff6aba8556efc056581777ba1909e0c8ff10918ef8, 0x33a7374be5427a70b7fbbbba4724d5445d872055d7dab0cc2a752e1f9704ffe5, 0x556f73b1c7257fc2ba67502c7f745a0518210ca73b86443bd886bc632f62836b, 0x52c814f14827570d79cc524c16ef145fdec79974829afca982ed306f4d0ea5f1, 0x261af7a1d8e25ec990095bd1e0ecc4c3cf8514075db3ec3cb58bca4e36c7fc5c, 0x187931182b02f89da73bddca25071253f1b75cad6abdde2abcd5242ef000b2c1, 0xce550198342e71e327057da599257ad7e9ccfac7c14a53d2035817f917a448c, 0x3fa4a6d204a8d506c04a5a48b2d4e32bf02651c97e91a2568f5293a32315c634, 0x2c79bddd40ab001a74ad52e050dbc4d0c9d91b261a980c6ee6a045d2c55a3a2e, 0x42417c9d6bc3237915399a893ab711dc5fec0e17f6619b264e61aacbb780e9f6, 0x5be398c9b8d05bf5157a656e4ece1f4395681dfcfd36cf52312af36ccf95966e, 0x1daea488549e4e92a7be4492538630186d85d41e08a5ce66641dfacac92af9, 0x26d976c59f701abed52fb55f396fcec9f63e4bbeebb195ccf005f9371757e2b8, 0x1c60bf14ce76ac48820e58c7fba69338ead0255b7b63ea017731461da13b3b1f, 0xc7f8a52b9554d831829c5be32235e9513f73097148991ad1e0e556388e7a65b, 0x614d651606463ea45a4636607e718565d6588aafdcd89c02cd4663f74340c4e9, 0x6c25b821fc3fe980ad27be825dc1606bf170dec552dd3d1756adc99810c82cae, 0x8e7a83bdc7f90b9c4952d76964a4b0d89611540fe5e8302934bcdea3a534ae, 0x1332e43c235620d6b4a51c5d8a7e82fdfc3a6a369c3694b67c212ca03014cfa, 0x3018c9b0924813f3039c0862472ac70e10408caa9880038b411250fd9a4003c],
    M = [0x39f6d3a994cebea4199cec0404d0ec02a9ded2017fff2dff7fffffff80000001, 0x4d491a377113a8daccd13ab0066be558e27e6d5755543d54aaaaaaaa00000001, 0x4d491a377113a8daccd13ab0066be558e27e6d5755543d54aaaaaaaa00000001, 0x56f23d7e5f361df6266b620607396203fece3b023ffec4ff3fffffff40000001]).* from "../poseidon"
}
