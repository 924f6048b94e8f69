// generated by tools/gen_poseidon.py
module bls12381_t12 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 12, RP = 60, IDX = 0,
    C = [0x58718e1dd4743c6df033837748ba214fe362e6670986abf43582fb0b8ad70d03, 0x70386e11534d246051f5eedacccf3e600b0e4805ac94e627aee9d3023331a46, 0x2e292861528be1a7609b9e5913ec0cdde6be97e37cd08d674c50bf77815fadd4, 0x23a0336159b21e33c85484591b890d6c2e79f21d938e5aa24b580bf707524f2f, 0x5fd6fa47d53b2d719a8bf3a3c50d11ab4066ab0b0032a16d35e033f03c570b25, 0x353dda80cf7ccad6468ace8f99689bb6c74eabac33698bb47401b2c09cf48141, 0x5213a311013a6c80aa74d2da915847f6f8baea501e23bec5cf0b6ee35f4acca1, 0x471ae8a5c72556fce4be3dbba08a0d994cb55ba2c50ef570ebc4af786057bdda, 0x355b750e5ed7b1c4d112183553146cba0534d29cb6c1dc5ee2480af2dcc1d709, 0x5e0819d65bb1db5d2a7f333588f90d91c5618c8c7eae01553f3bd182a3f73f74, 0x40dae15e2ac8087fb37292b95966682e2786033adea68f8708c947080644178e, 0x455c00bc9bfd310e0366de9fd1abbe3c2bde1de7a07ec0f0ebbcce2210b30caf, 0x3cf1362c7805ee106ee18a41aed204b3da0f44380b2f72f8d9ae9439bafa8152, 0x6acb8cb31e7ec2230880f37184e76e565ba6c72b0c2962a0d82fcc2f3a26d38c, 0x136dd393c994e1f921797075f99b4fb55e9e652e54a5f9e23605d05fdb7543bd, 0x59866a05b6a1d2ee0401af50b66a05a82e52adc3814694f5418119d6e4eb6ea4, 0x199a8bc52f886eab199f06594f3974f7405377249c356ddf099384cc4151c9ed, 0x3484f2375ba42204f618bac090be752dfe3b846ff9db3fc7137a805dbe6d2fa6, 0x6769b0afd0c6e6c3ac68e45d3237aebd3e2d3019cc3b4e343aee9861ac5f77db, 0x952d4d8e4d4dfb18bba91ac860512bb77791308d37338cb01e73a57f7fc27f8, 0x69db8bb4dcac660b176023a355a91c13092893ea71c9ed4e38de750a71854c40, 0x3bf93c4351c5824d2de988fb4dad99fd684033502bf882d0aa4c8c24a5592435, 0x677976757995fbe477409e62d5890657883952057f44e4821f0dc88d16ff26bc, 0x4319513df595e2e7442cc22c37e6408bfda2c8351a54715fe48f6777ad7a31c0, 0x3cfa79b819540478062c7946a1749d310a385219b1a50d5e329d62e24dd3b455, 0x10c11c463680c7e793d47f7fe6106c396758109b3920c5265a2f0206b337785b, 0x2d1344489a64b6980cb33db9b60186af11cfc472120159eb028af95f5faf7b9a, 0x30a8f7e6a3166e18be86a7912e4dd47af75643d2e0eed0238873571ed4ac3865, 0x2fbc0fdf44c91f00063889f30e80e20747b50a825af333c496b04f8a0c03f2be, 0x1660313f6f5b55cf409001a8ba1d2620a01b1d0a5cf54e8def398ddee01dbe73, 0x526c2fbc8a6df524b15f9a0d38fb5eb895c20347d7cd679c4d0566b4119fe084, 0x503eb2c0350006d7ce634364f4713c17038723548f9cd6940910ba2eedc70117, 0x4db155f60de71659bb147ae7f8716f7d8a276579d888dba2f69a4faa0e843329, 0x155dc262eb0a584ae0faf304ae882aef05e980254d64ebd8eba726ba1b1270ad, 0x7232e96d8653856249e410be919f2830076603b72358852a0ca1743a6bbc954e, 0x1b780116ed8a01f88da99a612d4a8715c5fac7086e7052afc0e19cdca2e37cb0, 0x59d807596e10e9f9336a8e12cd1cfbedc03fb57bb0598533a59ab3386e5eccb, 0x6e77543a8176b76cfd01b56a7f3f04ed1dae74821effb161c69adb39262bc8dc, 0x56f71e43b570fd57c6b4285cda60dff8ad8fb5810030567efb923b32362bfc3c, 0x199bba6fb0567dccee9c59dab29be5928da481dd64a04c06ceb6e962f7045238, 0x50c4e3d04772dbf74470375b7170f781631a4fbbb8d718b33ad4784a04fc5ac5, 0x3ffa28189f87f35ea3b83750b2e85ad65062f0e63147267e401fb0cf4cd8c8f2, 0x20923f40d389b19ff1c1c1f013d49401273623756bca604cd0b9e5f90b0e5483, 0x41ba49329ebfdbfc2089e704a11913c49a3367f4aac55d61db4d756ba06f0ef2, 0x2066895f2d16b60417c6918ab87d861d09539abccb367341b5410d938cb38698, 0x64e9f7a9457d0e8353aa1b25641533c1bccad7f796bfbc2bb8085f3ac164a0d8, 0x33ee8ae51c5df5d8bdff655503f07a115ccd4fa547eb7bc9aaef87cbf95e5ec7, 0xb650d3bb6864756ac99d554360a60d486db5354c77e8c1ec98f2e8da695ea5c, 0x20a72026db2dbcae146812d67dbdc2f0b679b41cb409ca6f4cc940251e1fac5d, 0x5d64cd75c15a6c9b0c77694aa659708e99c3fe27a28e9085d851b1bb0a3339ed, 0x6555064a93c75056fb02e23158c98a9da848e9a75880b91bc1f29620ce48ff0f, 0x428cf1cbd0349e2c9c68fb3fe9bacd940b1db3efd5c188fbb7d06c10bc22ca7f, 0x3bcdcbd1aa2163ce369238061e692808cc0f7f8df3c26a8b5baadbaa3f887d7, 0x41aa7f9b3b2585b895d16c5a4e26fd1206a64c8f23b270d9e92aecb85c7d7d5a, 0x1c01dc989383f57ffa0d963b639d37f79041d1bf72b58beac0cc84226d198cf6, 0x12f58d22475ab23faf42d7e4713b1a4e3f33fda69b5ff8513f93ad5acc210692, 0x68b2b75a4556a497e098da81cf91f3d136834368d945cb78bda7a300a71e9eae, 0x56d2450bd8e355d216e0455fa19a80461978d67703655bbd0b584842bc1cf175, 0x583219a96b8fcb022e3568f41367fca4163601ec64f01b9b77068d34615eb547, 0x55e0c63b5e4f28c923b218edde3ca4a0a5d57e0e044a4f4a2234849d2f5caa67, 0x43f40cbee2a1e4d2c346f3dae70b94ffa007176e6ef053c5434ebfce03350e21, 0x32a2ab654e92a8f8d8d9cedefa628e5ffb66ac4af85fad1fa523a17b03592f25, 0x4bd660648304eb042c41badd9c677debcfd5bdca6a6cc6150979190fc578dfeb, 0x64f5d116db8ef069219f3c8dfc2f5081aa3706fb927090c0fb9218c2364bba4a, 0x6f89bac52f8692a5d7bbfb383c960cfebb8e1c17487434f5027f56c3701489c8, 0x10fe930ca7da08a16dcc29c17a202675bb297b997416086087208a66a80744ad, 0x164d7b58b2b8f8de84047ec6cb5b5869ed21e9c2c89957223e3812556b9805c8, 0x22f1a4d7e9a2ddc2b0d1e9bd7985acf13d110918234b684d5bc7cd04636f302b, 0x60ed3c8267c41f3aa6302126e97e5b7438957515b326279212ce9830cfda544e, 0x445cdd151dfecc6860ec1179ea9bb964e35810df125e343d266228642337c520, 0x541d6111e1786357a1ba509c5c28805f234b067e764a37ec9fd665902b47076f, 0x6dfe162c5a00b92f2163a05ccf0868a054c20c86d6bc6d17c70e481a48f98cab, 0x37a2840945a166db37a119b1fa7114e181bc7c7a24e42c87789f4458a2fd94c6, 0x679ec04c1863f20c13a27b5b76970cd3ee696b07cc8168a76ae4341680235dc5, 0x28c7ac9ed6a053d0c934b810e1c9f9de7e0e5ab4e404410b16365b3f63eb8fd, 0x2d08af57c1f28334e3eb4ca3a6b2784ebb68dd38bc9e20faafafc5ac9cb28e0, 0x424a07c9e7ed71f37d3b0f375566cfc5812c4f5ec3b0c5cc0219beaac2528307, 0x35ecbf18542a947176e77374fd78a745bb70d04625e3a7ee863f1e179e5e26e7, 0x2e876ef56e1f8289f097f4c1c768e4ce635b13d779e8f7c81c3bb4176358376, 0x1c9b2ecf87826816235c5b7220f392efb84276eac633bdc8d8380585940c620c, 0x6c54962d5b7f2ff4fdb937b86e74d71bde3811109ff5149e0a3c7b82b14330c4, 0xfc10c95ec50f9d0e55f15c74709f0116b37b3b083b9fbe8a8bb7cec85b45f7a, 0x26c7f35df93b0bd49779c1a0d9c17a5a6de5fe3f660d52fe9c20bf22db0c0eec, 0x3f441f49bd15e072e941d0a1db7f92eb4d0e14bac65261abe8f9697a953a186d, 0x72b542b5c9d199bdd03e46570495833e05347377e213b6393343e029dd974842, 0x51b9802f44e8e03af8d2d15dba6925698af206a0a2a1b0a6799fd8521f5cd391, 0x708c3d31701d269857ac2f2d93274e3f1a5fb102a22145d17d5eb6ccdf1f4d3c, 0x6f251a6757d3f6aa462e14baf70141f6aa59e3b6cc620f033c2f97e05b2476f1, 0x177265f2c284840e32fb9b7c3f90741aa4b7d0f4e9ad427b0194dc27247e46ee, 0x385d655caf8cc5d9e09ccb69c6967a458b564d2444663b86496b0db97218039, 0x61e969732b359d472243183cd2b9a0c77cf32e7816ae0ad99831b9ce76c69d27, 0x416d8cee47208d2589ec957219514358b4999cf1e5f1475146d25789fb14823b, 0x2dae19c5bc99678d762f5ed6b1649c376f5d4b6c08d654a7d373613491bb0c0d, 0x415be2901dc17f4bed569f2e146dc3b324d83c8dd46389f47a3bde69b6d9d14d, 0x73a2785c9bf2076d724f4f0ae61015f763f2483a327fe10ed13b71a5ea3e29bb, 0x16c99e213e0bd0ba9d51a2028089968851be41f37b6ca0321799374b1096b00c, 0x7b0e01a3fd2eba6e39eb1c1cbb6f3f900141f32b270454a615710de3838adeb, 0x19a2cd5ddc985efe1bd7cd153b2856eefbbc05d10845a04c72ef2284cc275eb5, 0xa3fb19eb74dcff5ec7e629ac4d1dda0c097c46309a6fecd6614ded286a03c5e, 0x2ee77424e5fc82939840bff7323bf49b280879e9bf6df966544d47b3652bb7c, 0x375d6d612980800b25fa37c6f7a4c76e0ab6a7ca0bd9d5f8fae93737c26183b, 0x1968c82d0a3b6c764c5dc8a4b6dde8ea5bb582005cef1ab191b96e0667a1ea2b, 0x25c1717debaf02d446859d3c0004de769a92c3a3716ae34dcf85e99511aecd08, 0x7030f8ce83c4a5b4f196666c7b863e1d356a729ec60c0755be49775f32809ad3, 0x67e263373759c55bcb3b2aedc36c5fdbfc7eaadb57725567cb880257a7f0aa83, 0xacffdb73c4bc474ca8013d6ca334cb4c0fa6c25ba737b8734ceb97dbd7de055, 0x5b6851a137feb799a810053fe80e796a17d171a9f344840f2f5ea723571dffa1, 0x720f421593cccfc29e8dc4ffc3c0e777f6aee969c7f230d4bc691a0302458b4, 0x1e2533ce30f326dfbd63d348c3b98318adc23c253e80575dae88bbf48537370f, 0x595ea4f6169526abc02db9b7cef708ee6274b79f0675aa85f0a8175ddc4966a9, 0x5a048bff0fcfd13605538af1eeb873e94590513cf8ced109d7bd6248ac2e82f4, 0x38f8faa789f1325653de0c0defcd54c8a94e53b24347f94e64f4cb5c9dd72081, 0x33c4966ff18579d9ef17cfde02841343c4fd2c51856d642aa96c73eb53f9bcab, 0x7360689e35126d8d9b42ac6e7af396e016d91815d4d6f8342edee73b20d7ce68, 0x29a391cad756acdffbce98b203bb007e827a440382a1686e764ac1b65f2995a3, 0x3d307e1b38dffb85c5d7ae56ae27e13ae73722ae1c1acbb67e411636ff1edf84, 0x649293a4dacf90800703f7e2f4ab97ec146f3ed7154c5f76792ec9779daf78a4, 0x165ee3a9a4d204c319cbfc82265ac4ea4f8cfbd1787a023bb36bf0cf4f15e078, 0x273674affdedf60b6d5367813e4f7db792af23fe65e4961caa12437f328f122c, 0x5c7fd1f5194b327d0913728bdf5eea3bd369c3e0f0b1a320457fffded6622aa9, 0xdf26ae33f3e7135ebd781cabc314284303b928f1eda62270b8ee9558406fa4b, 0x6837617e2e29f25085d3fa824f178bf850cd54d6e8c30164f68d7e2656989b18, 0x31020705f9945bfd9b811f3c5ddbc125640ffd31efed43f5aaeb681f7023b5cb, 0x5ddfc3da6b3cf63dc7c8c4e84d777beb507b9b9d47a81c8d859dd6a30c8f8ab2, 0x182c3e7f90dab1221f568bfa26f1aadcdbbf9776f32e53cfe69ba2861615be3d, 0x5962fa0e980b8380a5082624fe0a081f1b821e4c4a074d11e21754ebb3fb4b5c, 0x6ad45f307603b6ae3f65990cf69c1c2a68b6d33b0d7c82418068b37cf38eb180, 0x65126ef4fa948c9753c439cab196d1229b2d2822a182d33119d108086d0c0dc3, 0x4892b5bf3552b9df076071bbefd67e472fd487d472acb203537abc6072203869, 0x3a17ea376ca3b57c6ee20836c6479435893363c2d84ec7010e7c81cc10d9e135, 0x3353e8db2adbcb4553318dfa687ec99b886dc37020ff19d5bfb2b550f0449a, 0x3c1e8681199c83481427aa482c6dce335b9e0098b8b0f3a924b2494241892f86, 0x5708661836e6a4c943f275813139609be6117d89837134cf69ae016b31857915, 0x18f412a918ac5e6f2280ecec3941af379c851f1dcc0237eb2d7b52c4efa77498, 0x4049cb383aa7732a6807f8945760fd97310c0b014ace95dfa56ad4a976ab4d0e, 0x32c6b12f82e555afde4b41d0386b1cc011a039b0b79b2bcf9252c2f44dbab7b7, 0x14cb6ec1314aeeec13a2b6349d56167f9de108a38f18d4efb778a6eed626a1ef, 0x2be222e72146ccee53de8eff10201c2256409382ce23002981d29bae908b9736, 0x545471c5b4a2beff00ff2bf4b19004af329fd51ce1e64cf11542b9387fb5a76c, 0x968608f4a38a329dae70f1940e65bea44f7b316d02e415cffc7caf69c0c48ce, 0x3ff352ab4a4f97ce1a671b23fe9d1c06999f6b6bb5daa447552f7b8a1f8df37d, 0x1c36a88d4935b0a6fd13d1ed9a76cfc06efa7da49a0a02d05053defdf2bb0adb, 0x6f9c12b23f861230cfe7076c283a579407d31f681be26d24d410d95c7e77a49, 0x626e838e61c5f663e65d1e7558fe6f8af34dbeec6b779ca28153c1e2abc33e26, 0x3301366972be222cd74e7de939bb528a8653afedfc3ff78ca6aab81d6d94d136, 0x96198ca890a18ad0da91ffd9da68c19c60ba011d3e37ed7f170cf60720312ed, 0x51273447aaffa9d42273f8b2d36a0ab93076f675e7866a253541fba8adf49668, 0x650b7f4a960f3eb7ac2aaa5344d34bc9a7920e039b4cb7f1c24baad3f6ed58b4, 0x1dca8523cdaca14898cd869c53def425f677dfa95b2d8b13c6214c4c1e06e6e3, 0x6d3e8a0f49627c1a369df18e8363f14c57793e187d400a18b520b0830c561a67, 0x8bc18db8fafec83ca4824a34b894911d191fb054475c180b6ee55ba286f5bc5, 0xf29749b4f8f268c95f1fc163da579db686b4a77afbd3d724d14e7af2f694071, 0x152966723243a1096583790d65572c3ea6309d53aca1e6d5be9e9dbb2f729cd9, 0x427ac2cdea82de1ee843b64b70d8fb5467ede21f3b6377518a84a9150e1b59d7, 0x735b78bdd0351903c42277a8f52c57f0d78a5629ccd1b14de9c6b965047b123e, 0x6bcce7fadff73a30f85f11c918af22b08a7245246ba042889523b1af4965cc7b, 0x1f4e09db6510c14f668263e406cd48997b081cc32c2ca56bd0eb5e10a4428257, 0x64a16c3109bb32e9ac2d5859e8c2f0d46599ae0c1a30ed1798a061c6ec43b888, 0xa011d4cffe7e0c3f3a1d9a21571079d10fa9d75f60e6c6a48597b7dc7381430, 0x5361ec03af4b0495943178b50566ed8fc6a50b698a77c03e69c061732e85269, 0x4b8c72b7b4540f8ca68fcd0af68c3cc463e55b28c18e8902ac984ec71cc6795e, 0x6e1565081fd6b3bd8547c26061ba93c088937e4b19a0396d520c06a056d10b0e, 0x120004ab92a42ccb441a703569deb2fb70f17edf784e7c8d6a39beb6a3453e7, 0x3b32efb2a747c919041aeee0ec6f1cbcc3c59ff24fbb30afebdd3c10444d593d, 0x3d058fefb85ce552dfa43544bf8381f45796ea86af3a5b02b8c8a2ea9e64daa9, 0x43dd71db61629c7f890a0f08ba6485ad5333d2694106eb57081fb17ca48c8cf0, 0x51b98de5a14840c2c6ef91c0ae32a670ea747c5896935a8da88e6b1c20e830eb, 0x30576b5df8556d71ba13660c79573441bfc3c9412538f679945ba4690aec13ac, 0x3cc9734af4e4b4a7d9c4770e6a2966e8781c872f865f287020625cfcfafe94df, 0x6c276755271302935e564f24394a448703d060ce80cc9b6b78e659f56878d24, 0x2770f7b8de58720000879e126408bc81f112574a96e57c81968ce97414092adb, 0x70df3e5ae881c63ab3c05131004a375d074948e4b1125ea82d5ddced7cfb4522, 0x732b9a1b36ebbe0cb90f0adea41e0ce848b9d5cf10817a56e41d702d6fae2f5e, 0x6ae7001256f77e916eacdec89d6818b664a7ee4cf5bab4bd0b13b62b2dd4bdf9, 0xc326fd47115796c047afa8fb7e684e986100b39b2e8e09697e73a36258807e0, 0x19cb723e1c8780f9577dbeaa43a81c869ffbd99138cd871a51967ca2564de57d, 0xeaeeb79116b0ed02a73041a0e940b4f417e60cbdb27ee2b98dd8af79da3a2fb, 0x2b988a17c55677ede99dde483ad6418d0d55675c5d9e26be81b5b2c18addd602, 0x17c345752826fc21d52144f1e8ad579555faca39433c8edfad51d32c201a58e8, 0x6ed733a39c7e3dd8be8c2e24a255997021655113020b504367ac7f1b66a16308, 0x475a4b4130028bd53472097d137d2c34f4dc33154986ac46905d2906fae622eb, 0x3b632d0bc4e986f49b94a14b59795aaad8d5d1999eb75897e33a2265d8d44d15, 0x5c2fabc72d93801a7b05bfd03e917ee109901e8066bbe3f0c18c08283c1f17f0, 0x3b92f7deecc25a1761b09e011f525b466242fcc9b09af59bf6da05571fc5823b, 0x18cef52e037d64ef79b06f861e05f964e89cff77d0090c8ec5860d0903a7e702, 0x3c6b8ddac5800da35765d66737c39fb475160edb751109fb6b03e82e9a39e006, 0x18a30af4541d372faa9bce79849872a63af93bebd587bc3856e1d732f4d9f4fc, 0x34c1d6491aed213d76a0ad19c01cf52bd16a296b95bdf37c1a292f11b4f37155, 0x39bdfa1b327d32ee5a34078f71300646b8c332d6b5874d40b65c0bc82071ec97, 0x44c1a1b7331612eb3e2b5d90f7de812c6807ab63b3cb6310d12d8a103c9cbe28, 0x4fd6dedb9279fd99eb12fc853e455137ca89e329bf51932c021456afb6ca8a25, 0x2392a74842ceeca21714881f56a2724bea20aed78576ecc6ec23f6b605a262bb, 0x388acfea8d24fcb877619b8db2d98b04a4de47b6bf171b6b37aae00e3678ddca, 0x55d15d077bbe219294bc1ca089bc5517999575d5ea1559fdbcd1907c290de6f9, 0x158e168866607ca525cb43565a901a690b53b7016e2b0194724d2a5198273bbc, 0x4ae078f4d354af377b79c6d78301df17a04323bcfdf84c329c457a68e7587cab, 0x70db05720455d52e3b922eb08ebd3c51701b38c8d11110e17971393f989fc204, 0xa68e1d94f7d44a8d5e05075b028784040bdf4556e002d38b162717f915bb752, 0x588fca0d223db0fa536574c6b5eef59ddd208d424bcd663b076260942b13b77, 0x3620d18224dea185c46d4f8a8df8ed229285ca348c6186960b1a73978c5ba9e2, 0x71ef5dae569d7042bc468144ae1ddcbb192fd0dd8c86ab4dadc0cf8cba29b5f5, 0x1546e7003bfecee17b0d094ef1caa250d54ba2defa445bb9877f6f764ecc23c3, 0xa42cb605cb3ced34ac9a0540320f02751c5a5f1263e824c0d459e3c0a710bef, 0x5f72072dd8001a79fe9c5966b81fbf246b6b65f275999ab4a72654d3f10a8da0, 0x19c32a546d7f1237749871e5d193f14b2748ecf24cc84ecba3ccf6ed63310a99, 0x3aceb445f71d1c0a3191150687df7b673d120477149bd412a4b20b675443b065, 0x552937d0275e9423971c5dfce6bd4c9e679aa2df19767da9c6b074294322a543, 0x6eb6130a9a35e9ef7947eafe89797880bfdd09220868e76c64a5c95dd5ec779b, 0x70a1f6e026bfa8a0492cab1b9a03e9c78f36d9c9d388672927323254be299eb3, 0x9c1106c3a1c5c8421c1d4c34a3f0fc12d753f6fa5bf247a72cdfc0bf34ebd0d, 0x3801c488e6478136366e33769a2a04859915c3762f2ed29318fd895d3a5f564d, 0x1b3e5f62683218db3f4ac3c10608ce245d865c1e969d9c2e62c19fe1a9a5f509, 0x547e9757180899820f65fd595e79eb1a7a8c9eae8cf9bf426310e79dd11f1891, 0x48f7027f58077e82dfea4a888ac18582012b4432c7f91f43d1838871a2fd6ec1, 0x6c4b26410e20b2643bac24b8a3fce31bc3bdc3821d3c21a09592bd59a023ac2d, 0x5b8b8da0946a963f0ac3c412392b4216155399b4960f5209fc4717538a6cff58, 0x40bbcde581d33bdb43a447ad0ad79a1f7ff5fce0ea885de68ebf59619e28dcdd, 0x721fa07059c983ee8d7dbc1290f82ac1a7f2c3e4871ed23f196ff94fa5b8925, 0x2099ffb3c629ebb53ce9883741e7766c4a005375c48f3806cd2ae9dc731cdc12, 0x2a3dc0d231d949b3286490b75591213595c15db0cd7805708a6f4e2089326ccf, 0x2a62904a346e00ff4e6bcac201f1227f495148fb9a3b1753fa7a5aebc97ac369, 0xb4282c75f7879afc2e6e9e52942f5816eb4473a8ba9360a924293779b6bdba1, 0x5c4dbac301a5fc97f99c643c99f6fff2dfc79b7d50f448ad1432d2bc01846695, 0x14e08c925d0002144afe4d09bb3ff75ca6160def68f71a8fa6dfa463cf99fd66, 0x4a220b3cb80105de8222a3af3cbb384864b3dfbdbc82314d07cd36ae338c3aa2, 0x6a5210745c2993eac6e499f2d9b0cc5d66f9986cc7e307b104415d7e8751c01e, 0x52fc0d3f8f3424137c88105d8940df5c69a5ae072448922580749963a5420601, 0x3571b52d02795b866c527979eda954bc7321c74de949755efd5f492d855c2332, 0x6f2c7f5b49eebabc2b72cacc0bb74169b59e5e8313f746cdeb6920c9840b574, 0x4629e71172d067403dbbf4fe85ae4094e501df8f7eb2d2147ffe9d0a7b6b5cad, 0x68a8fcdb6c523e94f3682c941fe5b7d269f4b3437c21d7508f808c3b4b5e30bb, 0x12351715b8fc02f1e2d5a069837ec20cd48ce0197ff732a07c362328a88ceefd, 0x514ddbefbcd04128ed6e5a682ffc51c2dd527c01f4ec24fb9f3355ded60b1da, 0x1df71143c4e8518c0c272f0e0188ec6022aa2a2285f6dbae9a2deebbdaa26d71, 0x72a936350bbf246dd8641bcfc709b183c52ac098c892fbc01937717adf1a4ca8, 0x52acdaccb88848fe2ab634e6cd4676c54f620b6ed2c765d51b240585da1fea88, 0x6d3e61dff446514a0bd73f3aec7162acc66d9de14ad67984f3e64deead5e85aa, 0x514c5a30c31aed2bcd806ea8c421b4b6448bc39b3317a81b8924ec888076eb72, 0x712e830c876f6896d52649fb3fe86918595573ee7403c09c4a24179553596c86, 0x2f413d6efa22cf400bbf49249103536e22a8029b64e87e724aebce1bfff55ecf, 0x465a8a9823a58dbb1cae0540a3e2eb26143ed482b79830245a8e38f7658801c, 0x25edf0873cc566d36b8e7ed213dfd4d5f5928e2ff133db9d9493e13812a92345, 0x3fca20a23ca8c2a4bf2449602733e16213069607475cda64847fd66549f51fc6, 0x249e125f7c8b4b6dbfd9393f436564f4751f9efd0f5391be7ea48733c3f5c84, 0x2ed81c172f67e17555210b57d2de37aa655267326fd673930afe7c5886ded45d, 0x41248f9301322b287a916e62b1a4f1cb96b73000c678a3432b48ec50285986ea, 0x2ee0c3a1524108014ef252006eb5d045741a4d68e5949b639c30e0eb4f491bdd, 0x406e178baa24f08874c7da69b8c90b575fa4e4ec97f67a5d4a93a6b75215a264, 0x461adfe797a84138f0b766fe0f4f86d7ae2152582fefdfb0eeec87afe6466830, 0x6fefe3960ca7b7f900462f7258ca2bf1e7184ce6a265d20e81d83e5001daae91, 0x6daf685228e724eea315870415ed54353c7cae6af1cac0c6cb52f8a70661f9b6, 0x46ab0e5e747a5ac0578fb13251cf884f1f6142ee01b0fb68842e73147fccca61, 0x2c4f3fc8f57c8cb109a8c6608e48551789ffbb253c2e5c1eb26d222fd204d6f1, 0x403a16fc93e5c4f81089dd704af418047a89c246d022daaa9dcddd7f1fe43d0c, 0x6fc380a0db9022260a2219d5411490efbb4c9ba32f7b54b8794461648d9bc615, 0x2480d0e13cce5bb343c315bf447b43c738a74a6ddb8cb738e2209570256d2816, 0x579f475908c0ef270422984055ba0a5a1f55c55adf891e8d2d781a7ef74a3ea9, 0x5f8d25e7008921ec28a8d9da44c7d36db7b59e01bc8084f4be404add2c5688b0, 0x72d106b11a20dd0dddaca94eabcccb0fa1145900294fef76fe92e45a5e94bd0b, 0x43ba0c56912b4e217bc051e80f48ec3270ced608ce1612cba260938c9d5508d1, 0x26147e433d55794eb885f4c7ffc791fe4c31aa3cd367481ce0fd5bd3fad60603, 0x577430f6b4eb5bc8391910b6034bcdd1146e30095d71fb0171eb2db5ea4e3ab, 0x584eea84142ff1345cebbe2e35eed9fb2f19774a2e142b54009668afffa50a66, 0x638650bfdf54f34a8170cb9175c31cfbb2af845b10a4594ab29106b1793c6b5b, 0x2054917c344c25ce9c10a31c52dbb1d4a00526eca4d5f10efbd25c764717d7dd, 0x6b329037698a8b83d6537f478fabe29b2479bc0af815293b47503878bd679336, 0x1f7782cf08ad185b69ca5cc95af22b18144ac811052cfe5d2fe747227f2ccec5, 0xe06c8d9feff2b80ac0adfce88b482a2b89fc8d7f73512cd70750da892ded53e, 0x6031da25e0fe4d1b2da79d069c5c336f8aef1811444ecfd3ba75e876920365, 0x14567b798ef713cc06d01d033dc7a184a561e325a9c9afbc863afa7b4b393cbb, 0xff86e7330d36aa17dd9189f49a7d7399f57ce05221c83caca51c196ab840de6, 0x42107375717d7c6d65ab9846b0f19e2878ccc5f5f1dc8c3297231bbd44274b04, 0x8e50ddd97fb8f37d0bee64bba3f0d07dcb590b2fa1964a36549ad4bcff080a9, 0x4bd9125463256571b3d7ab9d17ded8a8d3d43f23d9cf753a7181e772a31040c0, 0xfc0e9d363c21b90106c0f389379838c87c23c49f5ceceaadc74a2f3b9c4ddfa, 0x34955d1889ccb8295fb9af2bf08bd89735128574d7a506be1c847510f966c980, 0xcf7824fd48d176104a9f5833d0540cb1c0644544e884f9e40eaec75f347753d, 0x2375046618f9452e9dab0a8a6b63227c7a419b82708d3551fc1345ab594d4e34, 0x10559cf8c41958cb9d94ba0e3bdba108f63fa84850db627e4b28df58daab54f0, 0x6f13ab96a6f07537a17e8aa2afb60d9e24d986bd30636dfb131105d89030aa4e, 0xc42b4c037fdc14d27530fa2e943daac0f2c990215c14a9d59e35a0fa175e0cb, 0x6e2dee8b2e7e30ec9afa7d6fb7c36fcfb43583f6ca39ed034e82ffe9e2025868, 0x33e0ef9403c3fcd7d64c11360923fcd8100c1c237c613b0d67559dd85ff6fa53, 0x4175af922a85e734ce8f640e280dcc1261ddd404b315b8fbbdac3f302229f96f, 0x5990f8efb4686c78a48556856a9eaa5d7c142bc3c0d19d31b32de4be1c38cf5b, 0x27fbba8e59f26210456eda371d07c54b62a71e0e63252a12479f65f5ee221a4b, 0x55917494a3ac448bd15a0f7e2223792219f13c009fb7d8bf7b085e184ae36121, 0x714a08d5d22e3cdd74b978bc1f214f75fb63a920a90a8ba2d92ba844fc1bcb04, 0x1411e27d44a78c82e090ac6f1d31d31bc0e09125a779b2832cf56ade631e06be, 0x196d32206c3fb4862c72ac3526edef849e22bf2c4e5929e4a53229a086bc4183, 0x5e847de7da25b0ae8169aa89a07304aeca55ff9a87aa7df5baa9001b41837dc2, 0x689611b1318695cc0db8c6ec49ba19fc30455d45c76896ffc1ca3156707c36b9, 0x2983a445eb30520f844cd45e0886629f4d2e37a080d079cc0181ce50bf031d88, 0x9d70edaa0cf45b37da36d653a2134875931893b8ba2d1ce69463bbe35c9aa12, 0x40f09aad6b7c0c4a219efdc86ff21177dd3c3974253aa8e0e53a20e4bd210ec6, 0x72238d822aded8d0845b548ef48a554be145516420aeae7cf7890392b25a2769, 0x4abe92e23ada8946bd2121688eeab3c7531191aaab1cbb5bcb7a1f55db4dee20, 0x60743b0a62650d00132f4085bdf96dd253e611d0ab376fe30697af60c4efe00a, 0x715e01ab8815747bfd01786f08c8926236a7a41e1a7cf4da6d9521488c808ee3, 0x175fb58dd359004b436b8483292840639823061746151499696ef0a286ee651f, 0x6eb9b6132b6639b382a6d2b435103b36b0c24fd19081a11c02ca20366633f136, 0x1d641465b65396112f62b0c1be7b0577fee20fab48a26adb3c8f56d4750ad61e, 0x17ed5dc749159adb2b719646ab2bae911bd303c4c7f6aff7b115e839b520eb2d, 0x1c59c087cd76b583cec0649af97f29b6551a4f7dc32b0c030f22bb2c0d1ccdc5, 0x46014c4aa9cf285f007544b0cc459855f1c2cefddb30c80a84559fd899157882, 0x40447cadd24bd2e9f13dfa2f383d4f8446e43ccd3075c3ebcdcb8d5dda4bfad6, 0x536dcbb97ff5ec6ac9b0e6f8c5642dd1522b14c862150af4bb7d6738de9e5889, 0x6c95a0b5990f23f9c35c7d2622d3655bd519bd1a20d2b7f6f24c32d96f5e884f, 0x51f350492d867cc5f5c976cd744b73f6242036c62cdf50bb8e7ed40614a5063b, 0x5f03ad53693b55f8cc0a3fb39f56785753a1294a7cda6e975d58d7f59319a4c8, 0x45e2121135349a68f47db1309f16105f211f84f0736f5f0b9a08f4b9a634ecfe, 0x3e7a03ae955a1b91c9adacf4c55fedfec7620303b84f6f28aaf7fb44ec2b4788, 0x6c15344334407a67a53cc6083dd04fdb756dd861fe753e28a2356af0e82281c0, 0x50b58684206788edd2566b8c994eed42e36cf67b10836b59d5872c75dfccdcc4, 0x3e2d1373fecefad77bcb211c866da8968cc961869f243e329ce097e51d5269e1, 0x23b0192b51cf14b168a6799fee695b9ea944ccba3ba21e59ae9fddc120b0633, 0x34e574dca2b95fc45507f5990fa76071749f87fa4b60bad944297059b1e132db, 0x4b72139633c2133f0db4f74f2359f1c66f6f44f4e8d2726bc4012998d3bf57bc, 0x4fecfeb5cf1d43686b962fc69c9d66adf32cd1532100a5b675c8980dbef84eca, 0x22e7c2b01db25acca00fb81ba56ed7ad7a5f66d5b9b86768e8d84b8ce4163f1d, 0x317335a4027eac3e82867cd585068aaad91b1845bf6d4c2b200e5dd2fb681566, 0x322aa77dd150436e615517bf0e2ca40b05a473eb43e3cee5a07284ad695cb2d3, 0x37e6489dccb4558eaa3461ca4f339977eea2a9044cbb5414a75856a5c2251f4e, 0x738ccfed8d27b74ac504c72379a12ffba624efc1ac4f92fe453953fd20e74c04, 0x6c2be28ba79b0a7c1449945e504cfc9f78351594c5b441668724e0870f1a06a4, 0x15c0756221af0a5c828fb8390329f89cdd9433c67d9cc7807559222a5104bdbd, 0x72cdc480b65deba973fa6fa162bafaca51e15c283b8ac77c1f71b549f78a5e96, 0x3e00a657a86e18637e29cb23b582caa4f1ce4d71190e7f1e46893648ce5223d2, 0x383b78b623f4195655ed8a3dfc87fae00eb397e5764fe83680f7b1acde05c493, 0x424a43f352e57c313a689e46689e06418bd7fbbc581c7859ce5d6711fe64dadd, 0x6b6eab60444a8448c810d61328d6f9211fde709b7ac08bfa48cd02c53166890c, 0x39a4bc54d0ca4c8ee1341269fb66f367c9c79ac34a4465ad2a792fef7070c6d7, 0x6495dd406c6d6bdc940ef003416cf8d5f3cd665536adb6b1d7895fecb8167a41, 0x37ed67763d41374d8459c78ef595c1d398e1078fa469b846a16950f1017c6f86, 0x72d4af706ff4412e45b11780b309a8d138e37e1c473c733b8e142f51fa0d5c20, 0x398d10e1f5e163a109bc7b6fa4661e26edaf6489d4569117c83077dbf8339dc3, 0x46e420926ea34214a97b2e3be4e2b5fb9e806692ac56297b661591496eb7f9d2, 0x48461040204b4b35b84f419db4e289be30616a2913c937ac246e1cbf93267887, 0x17bc23243daa8f68dd0624566d017d59f849f9c39691c3994509a5286e5f78c3, 0x450004041580ff3ea17810086b9c9f6bc1b63c425519e7fa80a8e5aff7f2e2c9, 0x5956f9115b911f8ea70111a98f813497bfa97555e37799c633d18c9728bbc366, 0x1d9d83027c293516dec08d53cb684758da4852b09eecf1b511ed402d865b967a, 0x4c1d7c47f5b25abacb75ae69f5cc943fbffea47d9f20ffd2421927d6fd4151d, 0x360b524de214f8a2925836d06aa8ded93387652e4083d7fcd11e6f668ead6277, 0x27433f68fbfbca6ab22b8c84650e471bd95f3213ad9f6a3b45a2f36c981fad2d, 0x67bbe4602db631718346b0b6894acf51c533f63b239588b52e584b0aa8013aa1, 0x253baaa086ca4462a2c83e3506d27b8324600955440a3ef0021eae80a0710045, 0x40a53d0171bf917303606fc32fb106008b791a7aacd60075157159da06c05783, 0x1d255a9b4c096bc24e0eeb074dbd949dfa96997d28383970f1f646a1f4e21be7, 0x2388252c4073f802276548403547f4a0c2681a9524d44ce3f5b52e74023ab9ae, 0x1d43cdf25cce50f787a021220f4a5403ee4753c1d350daec3c71efadfed340bf, 0x3fe13177738e6cc7d887143df5a71167e5a61a293ceaeb1cba3e3d14ff28a50a, 0x5fdc71604a19b22abdcf2221f45be34f019027cd56e236a73ac57104a624a401, 0x65bb74747c94a7529c79f53b238df9c848df34d78d29c76bb2dc747b5c548c78, 0x61a451102b5b3dde004b3156482eb2ee632dec7523f4211907520fde19236c55, 0x52914ce64e6e4f751eb8d0d944d71e91b88b5bfef596bbbcc741c96813c2366, 0x1cba476c437748753c6e465aa76eeafabc4a0f90c2f68fc956f02085710d984e, 0xb01805e568224b0438df0903458758782ba921f1bc08da4881cef303e909926, 0x6c0371feaf48933962bc1c5a7c413073ff197e48d48a33e6700a941a185858a7, 0x3d703c2534b6eaceddca97d0de8a99d2010e302585a78bb510e4efd5f53e1704, 0x4fe461e01292306c478673c82d46fab0da4b787562efcdca7d59c1f3ec874956, 0x16dea023fee76b33353fa018e472bb082ae0a94e9317faaabb59bba29a07e847, 0x26fbb171ed8725e4a0f7041270d2d26d6b4e640716a108a59f2192000ab05fd9, 0x2f1b912ccb682d90b74125e17097cd76c59509f2d08f703c950cb46b49a68be6, 0x2c2dfa77b048b54fd4ba748b61eb6ea4cdca24390e4f878a38eb459f7c5511a3, 0x50ecf2fb2865b2396e6f76cc6ab44344f64753154c536d99fc7ea13169669f33, 0x14e68fd7ea2915897d5ee64db9a9bb7464a8fbe86c8c66e3535091e4d990f968, 0x740f703f5a08c93a6d756dc3bd686a25594709aed774d99ef5d22ce1791a956, 0x45b1e4561a0a56326ffbfe5939285a7908e8b2282c61ef474a5e384a3b08316d, 0x54d24a39ac74f1970e78fcc873e59c1e510c0caf0833e023fd3b990764ef9e31, 0x3048c9bf8945edbadd52c22684a3250d13ebad2d5c46cffaf3ee1076ac8ec869, 0x57820e443704e448a1fad2fdfc63b2174bd1e9bea1599af40942c82150a68274, 0x20a390c045b90cca9d7cdf48e5ca36a0d5b1dc116a0b2738224a7aad8dba9d83, 0x71f8fa8835b1f50611ccec3d0f38aab1fc736c13f03945deb145cb833875876c, 0xa6de5474e5bc02edf8f1094995e3fd3e633f4b6b1fa205e67b8a9dfa9c63133, 0x70bad364ed48505c60837753c2b2e96b5c6ac8bf99a18f8b334a4fc0ae4aeaa9, 0xc664f5f6cef3ba0e3d6a60e34809a05576af502b65f32f6685531480dec1b37, 0x28aae44bd574bf88815d03b99adad5f713f4a2515c977d440f159810588b8ad0, 0x50b1d87aa28d4ef262ab04ab37ed433735115ffe5adf0b9a3ac5036f50af87, 0xd8a603a3b8b2ed21fd6c93074b014156b198bb4d041320c00e207acea0c5d62, 0x36f3c4568cceef4024b0e99b057301e9f682fc6e2031507d6a5b6b5b1c883f3d, 0x2407e09f375f4a9887729d0eff93843571038f136eb442f3c26b7d4a162a332f, 0xde5096057ca10a71c68ab62783d844e7eda22d8a5d8bff77089e4c69bc710a7, 0x398b283f6a0b9448e6fee9a3a8232be1fed4eaed8880c0b2473eb2ec9d7487be, 0x4fe4a19bf22cfe70abbb964f4edd17d4e31b023c986cd918c74101bb0e15dfee, 0x1c2a27f10f13e7dd9a8d7810cc687df8f02fe8849823d842d293f290e43c0236, 0x4cb432d9b4ddc02e0be91819549c870ee7be5bb37a907b79ccff85c87aed3c90, 0x271614993e08fc09b920aece4160043ed3e4ed99e4a8083fc29ac9f9f7e7fa40, 0x19157a4f52733a3018ad10496b346baf1eccfada2f90f1d956d7266a0721f04c, 0x184342a7411492e2b996bdf6a01f98e0a1a98efe5eb30167683f6bb23fa49ef4, 0x4ab8b51c13d5b8c952bc7b034b1cf3377327904d01f8c981f5aa8997989e9c25, 0x3f4351d780dd71ece9162d3c18c52dd3298b1c5388b5056c2e9763b0f84f20e3, 0xe8f26ed658f7fcf4ef93459cd9f0a48e4c76c9c03529f11f452ba7f15528329, 0x5ac32e2c56356e4527c047d55cc291fd8a1612dfa877b8b364e432eca8b352c1, 0x428d3c6bea7b567eb5fae97ca065534fec05c514499ecfa07601528536369235, 0x6ee90c81b4b833db54273150f7b26c7948d802685c1f03f2a79d1d4d363d4aa2, 0x469f2a51de7eb759449a48a78906a036bd392c2cf63c58875a5e54ebdcf6e9c2, 0x6841699fd36906bc4d9d553eeffa8cfa50f0f56a3ef96e8dea14cd5dd843410a, 0x54df8410dbc1b47d396ac5f32e234c0aa3365dd84b002828eafa7c310281b2ce, 0x29b60af609a123198e7021495a7cb4afdaa6aaf011eb607cb5ba100c340a7412, 0x1f276bacf8a7a99159d6b38de786fae37d7ee74ad2a49bf65ba9124463e04723, 0x2e829d23570aeda911ca3f60538509db251852c4e976d2b82e33eda8ab0c9d0f, 0x2a6a15d8d569dc5e935318499a4de259d3fc5797abc0664204b19e6f62c831c6, 0x47edbc2a95162baa5370123be5a98e1e6d6b5bd7af7f570e97c348b0a8aabc61, 0x5b079cd7c642f1b0dcd3a2b7f6612bdaca0ec9667e3b73161cb413ca5c698646, 0x36674785b2ab72293ec024d7249a2c1f3302aa76400ae531bbe94492fdc74016, 0x5004ee30d492618e9f9f2edd1257787418354b2efe1727f13343e7b45c20fa9, 0x386cfd78b33e9f012f8aa24ea610e591e04c83eb4747777b58d12d606fe9a427, 0x37aff1037056010551cd3ac4640e13210dc7959cfee0c5b6180fe0f6028f5e30, 0x6136a5aab0684bc5fa40243af37319dfa6617d84a84776393e023a92720fcb81, 0x4d75d6818cdd6dcde8f064566b40789a8740e4f7da8b90f155385d509d50e494, 0x3f521d7437557531e7969b55c2790250f229ef9bd76644754af78be8dc0daa46, 0x44ee868c1ca51d8fcac04cab7c05e79ab0ab10c6d6aeb11af76aecc702407c5f, 0x5c5b991af08d42c31dd16781f4e37f8be03c9b72091061f5186b9cea006f56e5, 0xc15964fef57b751fed44886a19a3e3c82355be7aabb4a03b2f0a1e88cd69b7, 0x1910c66b8c2e15f37f45f8b259cf4be22f152d5f948a4e82d9c5926d8438ef48, 0x7198b12a2f95ba5e3e777de00e902309dac35c98f5037ff30b89c55b2be3bc89, 0x427b336e527dc0598cfc15b29a4fc7ad9706394687b631ccefa13042ce87cd65, 0x6862f17e2a23d87e6dbaf5892548b250181cd140b0502dd6253f1d324081626d, 0xf75ea63e11a5e3c0f8dd64e5f0d93852bb95c8412cf1c49c356fdaf6d9bd346, 0x642cbcb2882bb0966e559a19194ed6fba5a40a02da340a646cb854fa2d72f6d2, 0x6de555e4dbc936392d9d943cbf722de123cb7452f26116a2a9cedee32d15b3e4, 0x5a2713cfa9c2e86ca953a2b613d39df9eb5f01dc8d9f45817feeaaf7deded3a8, 0x4176c0527840d387f1032f3718fe06ab81c0106f525f41cbf5163dc6567a7ea9, 0x29dd69b3e99ac4c383799adb70fb6f4bb051bfced5e65e60914719b1047abcba, 0x63f22d06fa9f0f46571fe971537c58390b98da5a54f810618838040ff4b4e4a4, 0x7155fe46ebbbc3a028f8110850451670fda785a6b6042ce2ebc3e472330a6ff7, 0x387f8c07d4bf1289088ad6f0f3992f59e9eda722fd7f20e26ae448facd35328c, 0x70f7492b15320768e3a9a5d0e4dffa5d0e925aef39b51874261d292f2ac9bc45, 0x32345a0afb10651366a5b8fa52b926630fbbb3d2be439a8601b7196789ec9ad8, 0x308b9359fe9e443c4ae3201c3476be5386c7a3bdc82095b12f739e0d6e74580d, 0x3355004cfcae331de67c4850d0cb2dbc7618d08f98fbbee4db73cedc213a0a1a, 0x607f1c4f8fbed5c7b5e68a02827378763732330440d1f28c5661b63aac18dcf9, 0x48655d33a892d0d117d22ec5b7ed377b257196ca946fbab00b673ca39a6a4f13, 0x4b19ce6df43daf63486da63ac26b9b772d3d708bf0ed942c7b723625395cba49, 0x24fa4d70475d5c57e387f57c7c2e03c4deaeb93f50edd795e38e1a04457206f0, 0x68a7dd21fdc3a3bbd22b02a9f5923f277a1c5a7a2b61ca78c8d4dd8e5f16a8d2, 0x25306a9d8868c2833b3187da62d6d58e517d21040aa1ce21feb281469ab4edc2, 0x388b6b3bd4b2705f33ed18fd1df2ae0646d3a674c1bb6cad301f611381b2f937, 0x2b9cc06b3f1464d58f52d7f151443115ddaad32aed22442bdb28f412dc4fbea5, 0x665e8aad63254cbb0fbe5068e0cc1f7796f05190cbef4c83da21ffe947ee8d3f, 0x6533d5cbd79a9059c5b93ab954f18675e0f81945092c338b3b05be48517081b9, 0x6ef2b0bd341ee14befce30c47ff079c38b3d5592a6fdafe41ce553c0f62a35f1, 0x68688ac905cdfc86b82e58982a3817bd7b8e6d4b36d9b6d4f211aafb31370654, 0x632f9255d56bb1c085c6e30637bc3a7089a562be9d55849371c3c28288b2d363, 0x42b113668675834f42aedf94d1dc13041e3be7f2e610fb3293ae7ad8f55cc3dc, 0x4f2e00576554939c42473b5ae613cb5bf3f81d3995333206c296e0cafd0e860, 0x30e64c2ca07488219926a7de07757d230a8bddb92c665fb912731a668469909f, 0x265a6dd181759fe96d704afd6bad19478bd18ef427c772173450fd50f2534e0f, 0x27204016e59daa1874416c7ef8a14cc1d609fe93a3f5434b423cbf7d1f9e6d9d, 0x5879dfefd957649e46d1007b33698b318719182e0edbe0a0509d0e3b8334fd3d, 0x6305dde7ebb1414f9bc964034cbd4dbff53545f90ce125cbefe2ca3b6ad0371a, 0x4f8fd8d36031cb7296f9948e72b5a4c03acb257c1582e0d3122c67dc9af0e161, 0x6c69a16e06fa64eace74f71488d8133123fe8b130a5d45039e5c49b0e5461a30, 0x4b0e6e4600b7653b119f1dd3be2635eea9e2088eaee0daaed83e5174303c4bcf, 0x47e3b5ff01c6e23dd35600fd2372f12742b09de08fc6460dd19d04101f9be5bb, 0xf5f1854d99df1f90d8936a261804fc3bc85bcb467d4776373e15ddc853fb86a, 0x2f28e26c9180c59c4f3e724079ffd05c688792f2f35e19d615c99a2c628731ea, 0x22e77b05ef8f8a9cee37bf3a5f07ef79b82b38fe4d7fc5e33f7e0111927b21fd, 0x2c5c01d28e5d0c25d173c68387dc7269d54e371e2c533a7f7cf9497da08290e0, 0x6949c2e0733164574e6f1a57eacde67338f10a5bf7e6bb72f836743703488118, 0x2cc151a04f5ab3eac87b6380cfa5a7cf6e6edcddd58e7186fa2bf3d2f0de7216, 0x33cbf40d768273ff4ad6f8f550b70ee82abc8d451f6cef2c49f3150a77dbf34a, 0x12857c9dddde3d14bacd16e88a6285cbb79a954836354ad37bd39ebe3eddc935, 0x4a6947d4e945159076e2872a5938469c8882ecb8614eba48ddc6644d594ff7de, 0x4a5b9509c30465f66f7b9b92b4b220b5c11099a4b0f12841e3c076197826cec8, 0xcaaadc9f2cd72f7fb20f748f99b446ff19d9c303b4eb19d1f8d35b3ced95495, 0x15cbed09996a9a0c02eb8358b5a05d136ab74e2e963bd68688a539ab5157ad3e, 0x2cefbfcdf495ebbe99a98c46d761da13d6adc348ccfc9610c9e166f616c3af93, 0x21b2dfffb56743fff6d342b23195b45a6d97c6ea00e266aa395674576f02d8ad, 0x6f5c46926c96e8875176ea2ec6a2035da2099e18688191cf3e4355e56fc90b23, 0x543b465c890a85628c93bf8486f43787936830247a3d2d634d3d5cbb353cc0f1, 0x25ca81867b124bde7e822c14bc4da08be2bcbebd4a6172224db160e58768aae2, 0x24386a9ffce1d87eab17707bf1eacc7d2c44f6c5348220f2137b542b8763c4d8, 0x473cd33ea093e0899f03c8cfa44925e49475af0363cb3650045c6c43d594f358, 0x21b041d7c3cb61c4e2b06e7dd8386ce92f019844131df5124925e5a8cee3ff95, 0x4eb4572aaaa20ae3bef61f5ae02232448cf18207049062748d1ce954346b0886, 0x519f0b947e24400281e91aab915d73a9a76912c326a62fb7506b9493d03c078c, 0x4682556c9f0b4ac1fe83717317c9434569bc987e5abd238e7cf4134365a8ea2, 0x5a11770d9946654415b33ad745a0c0b1ffec3f1439fa16d2394113159cfb6002, 0x235bc3338ed81c482119b6457e0934077b9be9c5f1b9ae79d4191822e59fcfbd, 0x35b0cf33119ae5852646986b45df8af0d3da3980fa721e676621914ac207a597, 0x576680500b258be9084f2e9293beba7f8e1fec2f5b62a7975217f9ae4b24d298, 0x112300a7e3b128e274f6ba3f359d52d2f08c20c139608144c040914857f27004, 0xad00078570365b200700f8270ee4a5220898c9aa19945e22b6f2d1dda693907, 0x13788c8c9ba9ab1771eeb7f1e4631d9f1cc39cb65d0366cce58771b235714d6d, 0x44be1164f936e2a37690d76d62a8bc406b8666a9ed16a30d97166820650c4006, 0x42b3dfa7049e9a602d5c4c14e302ec70e9c45f03d2df318879beae191ec7fc96, 0x6b53fa28b88614e1961ae0c349e21fb11b0e55a369fdaf4065935d9db7cf37a8, 0x116bb076fb3888e7c3257d01d6b3e2ab352b8c404209b49fe861cf2e57a73d6b, 0x2f1bba498b6077bc0edbdbf9b2b95a59e2e42aba62a32dd232ef3ea2cbea8008, 0x1dc0a1a7d94c6d90dc1082f3282d1c56818ff680d692c19f3de6ba3532cec6ec, 0x4bce75cb20e82fac69eb2b64459d1ad06e2fa08f5299f64d83749fdf8ced1a5, 0x40e98a9afee386b9b011b43a84ab99a20ec51d9f65c0f8aa468b4a1085c9b124, 0x1ebc428ef7ba0eac6b28f51c24ffbe6515b3d28fd0f43b5050453ad1bbf5b711, 0x53d030226e7d7216e8c0b8a6e98aab901a732924343dd2b2a534c64107d4c086, 0x6505b8a6e2721ce1ac04a541f92c5243977a0931df2499d67cacaec59c6fd718, 0x6510a4239499a7ec82bb16e4b7fe9b6da0eab3e7b243028c8f053fb73f51a424, 0x210fc62171c84281e7035807e6074f8ff7f7a5f2453e724ff57ad251c05440f3, 0x28440238a5a386325277ab8b5f341dd85e9202c9cdd67e7a62e2095079fde562, 0x3332a14f4c09693753f103a855c8c63236c7b80157a3f7e8ec15f4ff5741a965, 0x3891de4afc0e2b19d7d39f8778be8da9b25a6e63dda38ea999b8db04251ec04f, 0x73d87102f701e216c3d628ab57c697e25fdf2926d8bd4453310c20cbdf435472, 0x3e819fff42cae498553cb00b15b500240157ce888255eba46838e9dc5b91a604, 0x1ff669feb5a5d26a775a962b757330d1e87c7ae1910ea3ad6a208dd5b9671437, 0x415c79de22f686630e2cd2fe3a4e1dc6eee2105d58e3201bdc10239d85c8e0dc, 0x4e4759c21bb75d3a021d1c876ec72143e3c2007211d990c5e051c83f23ce0cde, 0x836d6c4302e592c89130efb04826b3de6c63c4bb6d656058a7fd6bcaf133a92, 0x24a0d43ba63648835f45d6318a731bc0539e4f6c7d4c4fbaca1666fad44784fd, 0x5ccd2dadba656725fe24b455a9129f7eeccc3e4286a0d7955a488a0853280b00, 0x5faadc9c67c68a339a0a4fe0816b9780964bcd024cf8b63011624815462baf07, 0x6af0f5842f837c3a98d3fb5947f2d3fceb26e47af5463df9131e0ecbcef3a815, 0x2caa32089cc6e4bae980991bab883968bbc34549a62e6189f79ae5d6b5e0c070, 0x6c9be18942068e3ebdbe147adc3771d8b8cf201aa0d21375969568023b90714, 0x711966475560e3af2f05bb6d483809a74a7a28b16c2fcec2a593785ed08c062f, 0x1103b735ac675b4408ce02c05553075b2cd43be1babe615a260bc4b5df7bd6f9, 0xcc1e25e3db17eb9ef7e20efa92871422a945d74789e574d3052091ab40645ad, 0x2b57b5151dae8bc59a6c69efeb24001a38e02f9c5be893ea423f0914efada941, 0x3bebc4add3b0d5c451c7ddbca247c86ed6f4229a704ad77a1e6ebaa1b38b276, 0x18ea82945ab254c8221635a2704bb7298a3b65e4600fa02620ca34cb9dda0b3f, 0x1af0b0850101b3f7c60fe1f671e11649957191f5920600bf61edaf30ee01f73b, 0x2fa0f5fc31d1867bdfb6497d3993f2014f04d529441e031aa2ec3a6a25ab33b3, 0x1131d02172eaf7a6978a240736c6940b83079d9ef90ee7886d7d2c44599c7330, 0x1c105003c538900acdb2c9e73938710c9d01dbb6614a53045abde3c5edac855b, 0x5d1bf8218f0c4d7abe8ece5ea445345c46d8ff0d03e60f462eab5acf1b56a545, 0x4d2cb4b7743511a8a037bd78915e9009427f1a6590688c708201404dc881c2ee, 0x271302c619ea3f5127eaae1e759611ca8871d30888022df1fcbd1f4552cb8d4f, 0x2a1c47bb41f29ce99ed2ded60401d3f0088e22c6fe9df9ca2df62c0c4b41a438, 0x106e5ee685ed6b0a5b9ed51ebd41ffc1a0e888f792ea29f6ef933934b7466e41, 0x26787dae5be57ddfa3527ed2fe50d884fc990125186a8ab68e83a0645cddf96f, 0x58b309242065a30bb173ce7255a75474be40b61f9029dfbb2f01efd66fe091da, 0x629eff4f1358d6e023cfd8e2ff6ff0766bc0d84d63b8e0b77a1256ea6bb0214d, 0x20ad25e79c3b15fb3fb63052ed52b07710b25ce68c02ca4f71c2e0ee352e0b04, 0x3735db3ea1151f7d1d6140902d0eb63c9dc303691d77c96fb8ed3625a034c9a9, 0x220fd42edda18e290e8a82c523e3adc1cdea03443111cacdeccd853e48f098d, 0x1dbfa0fa3a4931316362b2cd5fbe1573af2f1af5f6a4a8c3e06902f693a3f24e, 0x324c1eeead43ebe65d1ddb1e4b5c88dc2bbbea83b875545e29576f7d508042f4, 0x1a2997f833652ea93adc0bec499d28b9f07695446b99fc65eaf4479af9c37f3a, 0x31433444c4ab4b3c21b28dcd057a58c3aa40cb3ffe3c2b628ad36e9d2572070d, 0x4e2b6e878059f004e3c97a8f65af251b877ef83918f889aeeee53e4aa613f882, 0x1a0be30a4a46d780d8a425466e3ada68d6e287fc98c8bed93ba3184b2d29decd, 0x20ddd20bf5f1aab5a3e6a1afbb0fd479f386596a1fc73f801af61feba9a4825f, 0x63dafdc15a0a036fb49da7d787524a8792bd30355b33f7c6aefcdfa6c1e0bb14, 0x16980831d274a88726aa2727ef5d99a9fc2ff87970eba2351996994b763b5214, 0x6a67f6f6dadfb1dc5ba822285e5104461962ca5159f18aebbad4a75a3edc9baa, 0x4a01d0a7f5b78d07137efa9945b37b6c0effd386c4a44c1eb8328bc0e80e53fc, 0x30760d2fb825f1be55fd76161d5b4b1f6a9854dbb54a0b2f6671f14afb3e01e1, 0x29574e238e752b79e37941469727cdd23aa42a911c6314292403d50c29eba9ce, 0x2ba22e54165dd5338fe870eb06a4daa0de189370620fb30d24fe655ea6befe5a, 0x22fb522aa8b801debbf485b62dcf8e4759f195fac1ae8130fdc0ec34a8e5b6be, 0x3a8717e75c91bffaf6b0b235284d1171e52cb969267f2fac7a2d665172e7c9a4, 0x34b2e25ed7c35f128d256bb726302c9fe2cde95662ebf95d5e64dff0808cea42, 0x38c0dd714c4d1858940103d219f63a9375b9eb722f1313030efc87356fd7de3b, 0x67aebe4efcd57f288970b5dec99bc8f3f388494c0ea69c4846b388932cf7fe4d, 0x2d06cb8c48fdc991d3e80eefc34c00cbc053d36650218a2e5d0bdee751108539, 0x6b864d8c3fea29c727f86252efa3425178fd9beeca29b5c4d8d056e190fe201c, 0x454459b775a14b3f100eb1fd05f6d04580b3e910807d77de7f683f716a0860df, 0xe2a16daaca91a4a9893edd27e873c6bd9304305a2df96c87bd7d1fbd7e330ef, 0x39faa3d08705714730637e95d6645d605f2318bc8eebf19a59e6ee7c216bed82, 0x6dbc8feb5e06fb6b52c873118ec2db4cf24378005bc040a3783e540e8551b981, 0x4571278131fd4feadeebfa6348dcfa60211da06fbe62938f5a9cc6838dbdc9ab, 0x6ae247d79cf1f81e580070c9727e17934b573030512411da4e6134e553b5bde7, 0x1c3c1422138493f166aea5d5cd331e9df79a783c49feb51254aa9aeb0fde4157, 0x3a32dfe46078f42838c6c96cb67e8777c453e0924ff1c0d49035fcea0af12aa, 0x71c835300447fd2b2866de5a0d37ea4aacb568aa0f71e1bddca7ef7bd14c95a9, 0x35ca8c821455b08365e7d614887826d244f83378f7f76788738ca5b9285d86ea, 0xd64d4e95d2d2883739df35a7631954b4318ab521a9ee32077683558564bfd25, 0x5523f396dd81c1606fd3794e42e20e38bea978e1461456d83ac636793a60e32e, 0x1fd78269192aee0dc5201b8eaf5823a07455056cfa00089cbe5c8f15e942fa3b, 0x1d1dc608e1ccaed10ac6bed09959cf12b4a2004bf65c23d8607076424d6358f9, 0x3338784a6e3c2e57e8096f1a5e620542ccee47c141413ce5297e8c76b838e97d, 0x5239fa4da65d81d77b6cb878db253cdc29fd16761ec580f1091c35c444067238, 0x58ef1d2ae31d64a2a38f07b1b34f9784e2c784e8705e7669b533ac44bc242fa7, 0x77716cc6e4450ac7fb49bafd3fd00d3b32a2a3bf4ec01d1f44809712405bb59, 0x21b3aa08e804bcb710fd146340cfce225c2004531d01535a7e2a7fa872ea37bc, 0x2a647f302fd3261fe921f06f6e6d292d4be6c3d4a5fbef1d6f0a4ab3dc5f775d, 0x73888ed9ddbcd7e412559800c2622e0b138319c17827058b087846cdfb51a801, 0x1f8f9e4182b3b91005e059fe10e5cd3cd278b26d0b6747d5f24113b3de893159, 0x53d597bf355ecf97db75b02f4131ab5ba567e264135d7523018aeb2a89dd7eb0, 0x5dda8c65d4b83ebef54f828dc392225cad060dbd72244b646adcce9d68f85df4, 0xba4ff184184a74032e4e5489ebab60678464738dcb7e44e8c8d7f5fe5fdedcd, 0x2aab8c8e0d444cd9074d41c22a360a985a5a0e75394c0398729ca7f398acdfa1, 0x3727f978a515d350b4e64ad14a7350111e3405a35d1363e636f56aed6f73f5d9, 0x46d3c2447e29c621a2b521dc4504ebb247ed89ee109641e17ccbdace70608256, 0x70d3f005b1df0d93064b39f7652a44c45164a729c2676968ac70738774dc8901, 0x705f138d8a5bc498a17ce5dd142b27eef734948a585d3f081d7cfd39031d2fea, 0x48ea43f082b302209bd3468a764655339c0bbc5161c46e6f83d7545f0772462, 0x47edd0f3a94e8c7a84fb9d465f3103e689ba36079389a02b6a7914c17a8ad8a2, 0x2ef5e04f3a35eab4a25dd08443889748fdf7d819420d3b14d66a31bcabad6cd3, 0x2cb9756f7123f5fbbb1b46b926bad2e2e932d1203306be3612101e497c917937, 0x44d21de9785d3d9ef704ec971142ca86bc2648b2c7c1121b319904c8e6273de9, 0x2bd4e51436c2440d6c23f9a980ef32800e6903e17fdf87b2c7b52fb28e14ee99, 0x4477028e2b86cdb88117e407e96ecec62dffa066f3fb23fc42b5f1db7cfdbc55, 0x4a44e0f1ef9ec26c4cf40d9eef3cec98f6a5c291b92e54d281b621d230fc913f, 0x34dc25542c3ec1a3628651759fb96490dd22ffece01516d0f789b1c4a86eca3f, 0xbf15642f316baf1c1c54d493db51900f269a446f3ce26ad82634a90dab90a2f, 0x6ae335a6565fedf83268f6dbc0d41e9da284ba45509c7be625f2fdd874891444, 0x9b75e5956d46b185825763da257005beae88e484d1164c77b467ae1582d1a76, 0x26d0d609f749f5a93f4424260d39062b9fd5bd8b7a21952f92565253365d5705, 0x5840123ff8f0fc372b2b1e54c6964e3df1a4e901ca5bf9978c01410e6367c968, 0x14792e27b7aecce1d85e1744bed178138218a51509f2279f84a425ce835169aa, 0x6343e73d434d416a4bb6efcd314dc437b9b2343ab10ff9a4bc12d9e7c27ef5c4, 0x12f92b0a12944c706c28c99885f2339961676ba5156b97bf41702e0213cc0ffc, 0x417b74af00453ca53d5099e80373887812e1ef60075a60bd9ec5063f9a3fbb90, 0x467a68ceb16f2edd71aad7cfa1dabab685d2959462f4d79624f5cbd23457e36e, 0xaf23ef924e1b476ad43a4b38d06f6df0d724a483273a5cd251ad7a6ab04cb8f, 0x25c0bacd676548fe7396655c62bf802f6d4f9187041d73a79c7d52c48e713a10, 0x2e99fd2aaa18913f8bf9a27b3797bc142b377bb32b9e9d2a89d00c3b03d19f09, 0x2e6507782822b06b3a439176a7173ee1d4a7c7dfbb1da2d166829ff445cde302, 0x1d9d5081393b480a6c04bd303b2d384840f018b60863dbd627717cbc7e7c6ed4, 0x3230d9a03294064deb2b621bbd3b00e57b5d7ecd608c4714c84fb239be159c98, 0x76658189f47765f77db9af2f55f6b352b7b366beead89da9175650feefe8c8e, 0x5775c227be820a1e5e9b1bd7b7abfb18844deda815f49e2cf670bec4e8e0b3cd, 0x1a2a42e81f8fae104705e3043753e1e83d13ffdec646715ceddfb3efad12a588, 0x4fbbcb1517d82b4c886e562f7074f61a5793909525132bafc2999ed80e4ccf8, 0x519d1840dd01e55836b206c1d65a7cc51ee28169ffdbd275547128b877913417, 0x4bc5f4caa069185b2d2421cc6c9f4938313fce6b961e1f1feb45493d49ad997d, 0x26daf23415935eca6de5af8f14e614c1a12a61256906e9e12d645611434dbef1, 0x2c5ea716cb803d58e380d5808c835b2e36e2b058d5473ccb4c247d8ee028290a, 0x40955e01d56a3a0c2909042bba8c0efff0243a463f0268b74ad7e4b31da31292, 0x5b444294164861edfdb96a9d6bef8bd3a112e4908e46d92eda3c1380dbdafdf1, 0x104d1dbe19cabb2a70775c4bebeef049b498504997cbb6479b440c1bdd0a7297, 0x3b392696b63d2eeee6e1f1b3a8e5fb8ace4769a521128bf54fd5bea6916818fe, 0x5ee40536e39d2f3d37c68a207340f14457b07191f86eccc81d6249c8d9c5ba5b, 0x67e446ffa6e0dd8f4a435f46ea606a74fbfe262cf0e41dddfb19cba6e48f4059, 0x151eaff7e68621455d1e0be234236bfdcc6c3fdea34a4a18088815c8e715e7a, 0x7203f3a12fcb0adac7d17963a0c30ae7e336b58fb8d6ef7c8bee24c40e3e05b4, 0x51350759f00beaaccfa47edbf0faa49998d0d4c7d7dd39f1c3f9d7a9c71b3446, 0x30daf0cbe0f400c279b2816962557b3047b2fee6cd85a4f7424b05c1b6753aef, 0x1bf39e9d67b68468ee37c7770fc2ab2bfaced52fb3bb77e0aceaf2750ad49742, 0x4003609525d6bfe92252691fa0fc5d7b4e749ee34f2958748fe77d083178e807, 0x6ae18296eacc452ddf5b451377a7f3a83f16c1cdd3c2e8caa0baeede9b5d4aa5, 0x345b4bf2db2d34bff0e2944e179c53f6977c57818d8f53e2e1218f19502a2aae, 0x40eaa800686c60e9b399d7eb4719334ff0ed8167b8f74f0584fb20a55afd0bd4, 0x3a516b6fcab25a4bcc337fc68edb500d3ff46eb5ab0a7870504bf914f434a094, 0x4ea5074a429e78035a277545d89d3ee8101b4807912d929c012d13f0ee77fc53, 0x4b87c05cef108f3ed20623ddc557dc0dbe8b46cbbb01cbd5b8c36808baccde77, 0x30b4a5ede9e914cb4a2cf0678a728a76b703d1588e48e180e024117ad8e4fd27, 0xdefd48d61f896dd2c5666a66fec041ab48fe63b5c9e17dd544efcdecca2955f, 0x1a04278fe3fcf582fed2e8b750d5b658b4d45e30b5f72a1ccc0507538c86ee2a, 0x1731d470fa5885355438ebaf82e275d8f5d230a5e4b59ab6d129fe44323355bc, 0x29042699fea19bac3227d28303a3ca67fc8733347ae91670a8e1aa66cac7616e, 0x1a400b7d5cc2324f6cabc57b10b85ed9e14cc56a19f28f2989748b6e2b3a2fae, 0x16be56544d1eac7b3a0dff676498979167e21edd031dc3d6d2f29575e33c88d9, 0x42e0f9bfedd3ca31e78833f9a740151c3e474042a218e5a379cd5d16eaefe531, 0x5d6df4dcb5540f4e7d065bfe19685667b9266bb3a54d3863bab8f8c96d782e3e, 0x131a3c87b7a0d62412d54a4d8879324d8852af69cefd4bc2caba508665f50045, 0x1c6e47beb47c2425df8764e1455ec520b384f72dc089afeeac2340e3b3eb9dd2, 0x4ed4791a78b6fe4cd66fdddfd3b5a0ae28d4db93300f6bd20a796cf5e495c5ee, 0x173e7bf163e339e946a86acb0fadf96f02159b1ff36a1c005cd3f448b464c4a, 0x4ed2ca1d7614865d4fc6e6f46e46846fa19f1ae35ba573b025d566ddae6491d6, 0xfa8542514b6594de1cd833c9a8350d5b11565738aaaa5ed079d5097957ce1db, 0x10bad3d97a4ed281f05900f9eaab0c42e61e45da4c83fa408198e2e4db8a4a89, 0xf996df25976faee5c099b5b15b81208e67e09abf375c72789677f120b1252e1, 0x11aadd5cc50f2eb6fd4fe12fbac5cb0bbf6badcc02dd140231d2fbc552900a64, 0x6d75875978ecf14ad0d19b82a8a64a066b9f08d018ee17417d8c2f3c7563f72, 0x68f89a1e7489c33facff430dad22d0d5812692eb49cacee0a21fa878e55768af, 0x2ce0f71b9b31ceb85aa8c9cb57f4559822e814f82f35fe321e0029cca84e80f0, 0x5eac6c78158636fc6a0cd6cc8507b6e5c1fe840beb89bd8a999c42e7c2a825d6, 0x33949c9a7fd1a639967eeabd73a0385455abf985cefda73e785eb5072a409688, 0x423572f799dfd83b3fc1a9ec325bada74046f12385b45cd296897a0b49b89710, 0x624fe107bb366b884cc2681973ad4b870d1390a847cec7156ada1bebe4d641a, 0xb36ba3f4b113f1f238446218e5fded4941dac9cb8cd0e4b571d06e4417b0dbf, 0xabf4a35661ffbea1ea3f156a7c8f97af6189bc0affbc08dc37198c3727b919d, 0x4c813fe46b9522260bc4b86651d7d6d54dd787a3f7848c678c818f9421eea63d, 0x70a855fac35803b54e4b874e2d0a6c7f496c2f7984e0c558cdf162ba635718d8, 0x807fac0473a1714354af8060a4545c550b10dc2e00e4c8d273d73ea171e5387, 0x529467c9e6f7e78bf885ea79d915291979afd02731365fb0c66f9526e2ed1608, 0x3db83d473971edefda8a28753f8089327ddb8530dee6c95c76be56ba1ee7326a, 0x1d8220402b29ec8b1fe1eaf1f00580e03282a8e847d6e6cf93340ea11b378e64, 0x927e2cb9e6e39e4310e00eb1b63b1a3fcbb92d52aba82a925bdf554e86881cf, 0x50e61d354c43cd57c30db1e03cff4235b5a884fe50ef0a0a31408b10345cda78, 0x60e121545b3d3ea9afd339c35bacdf023595102c0b7c9fc88c195df8381359dc, 0x203160816ce17007c498e3397fa7584ca251133e6837bfd4290b49c8a7e7512f, 0x5529dbe5ef9e14c8fb74d2fb9e860b58f9e7b81dc5eb81540db2799ce6754553, 0x726a1bef8f309652b911bfa02336f1dd2c9d0f5b9ff63268a8105169ccbe70c6, 0x3b936903cb43cb0ed27db87c30e5a765c5aac11e49b8b5453072fd7853b0a306, 0x47fe43f0b87487c2be6635be2b44b1c6ed017b5c6013344c6e3589ae9d7e0623, 0x62227c2cf3b9ad61c8cebde3f357d765956c74abc0db019eece4e8d9ccd067cf, 0x6353a9a9d33f90749ed4e03e285b99419452f12d2b3b71e97b545ed54f2f9369, 0x5c8c7665b42d6214f7e8b1d076a2c100d4c9294e29b283394efa410b6f486bdc, 0x5638e15a51e6959d2286de40323f99034c7791085c8f22d417f81615e454a37b, 0x67f35c942fafeaad8a8011242d0f284c93aa27c7793528f6e962afb7bb1cddfb, 0x7146e093e514bb0848ea88e8152e70cbf701bcf16664c4c39833b851b5369e00, 0x34df40dc4c1c955d0e5df16435f4b6fe8357376f8bf5138b53274dca673ccbe5, 0x3e5c7936f6fb17b4efa0d2b4fbe7fc6111c1f7cdb5534b3f8daa882d4c81a344, 0x663f3db85ad287e25f2c7008f00a459d7c943d98f90bacf92f42a1ec70579ae0, 0x609edf50e7e52e0d959aea7a267b3378116f9bf51c5da0b47877a0a5413b33ec, 0x6489b479b6894bcb886048b046f0c47e742232577fc558256f7cc530c9020a13, 0x707238ed941c229ad5614722765bdbcd777b64ddb087f32711d6d18004f418bb, 0x156ac431d8eb06c2b62d162c1fe648ebcfc3c1a6614ac7d273cbec13204feab8, 0x56eb691ab0eeca4c6d3ad737eb3b7d433272ffc56afa92e2c77c49d8d91e2919, 0x605e86fa1b6ef31c8a351ab424a4bfc73b6129f6f96be14ac063b3a54747d738, 0x5b67e6a325af177a0c3a484b5b7c1daa26b7691c9b7cdfd39f3e88f15849e4a, 0x213aadddc0130c2319772966d13963143f334d9b3992f705771a02480c1f6e1, 0x2e736253028ad31674e7fd674bce1be28306ed856bb94282a2cd7fa1a988841e, 0x5b3712936749b3aa28ed725dbbb2e02f48f4254b520c55be192022906acc9b11, 0xd5409464b120ddb87598c2f10adb41362e5331f2a86314e5ffec8871cc805a9, 0x186d8601b96f5fd9351b51095b6cc1c8ca8391f58f21457ae92e5b71526134cd, 0x51f2bcc6eca09055547c40c33522226a3b4556cab69c1db1a9f760db7bb40f8e, 0x29d2b00e7e9c4c364a5f511c414eb534eca2207e6154ccaa1122a89484aa6153, 0x302541850f75eb4f0202d48505ba864b273f31cff29b7a163f583305dbfd56c5, 0x293ea1ec74a703a75b8cd2d8b4f6fac65192a2e77b34b2e9f0b2399ee6118199, 0x1bdcfdf390c3aa0f52e5e9d8edf2030fd9053af52998ff6f52544eff11b503d, 0x25cd5d5891f5ec7dbfb50664033adc6a8c6c8ddf03cd1aebb251b8c6ce4736ff, 0x666a204aa941c62157fdd3ff4fd9d59c7a7c683f52225eba83bb1dd9dba807c1, 0x1feba857a2c4d618047718e0a769f2ed44796d0c4fe6d64dfc946e7da878da5f, 0x3f78e60330f6e41330a538765ebe2e5f73b100e367a81707ede864edf4230284, 0x434a2dab95ec85905e605e2a670665f9fcdbe92aba12aa035d5762070eedf08a, 0x5227e5d74b20cb8c36014bd9b5e70c8920033010781b1266a9158a7abb81296d, 0x6ecc2ce1c5d446fc620d14f54630471d353887b06d300efb194bcb99845c530c, 0x19ac5086aeca98bc177b51d2d042fb0e730de983988cf0d6262e1fca9ece9c07, 0x1d54500a454bf7b4e2719c6426d45e61022a2be35f3dbe8ffd57d3800eb4f067, 0x72f560f72b1170fd3ec207fd3b8a53fa3fe2841ecc9a43168f113cafb45fcddc, 0x12883f77d090b44d9bdfabbed587b9aa19be53a29cde9b36b286875346ed245c, 0x6d095485bd11dd3c90f04e64a6da9c01777f3b1b084d9c1cf9788ea552bc7fe9, 0x73f4a0c61f69c335e03536941145944389e3b28300ea8635b7331cb3cb02642, 0x205f3495c1ec5aa344bbb08817074758258b924084d0b7c8dc9731b7f5f39b5f, 0x5ff266ede1ce48d848b2f599eb3b1d920d88d2b45f4d09edafa597dd01204fc0, 0x2276e9c53b4a2476223c85feb843c51516410d071db4b96d18a916fa9360e13a, 0x1c402597035c07d2bc08398a371634de961bd1d61a247564dd24747551f9ebc3, 0x65c4bd49d99174fac3a5e67de3e93352184d2b199bfac2be56ccc3bce2bf74f9, 0x54f9a10b49507bf7c1c5d8d12dfc3570c24cba92cb5863c5a3c7d563d9db78bd, 0x3f17ead4f51089813c26679590e4128c293428b6a5154a0df5a4fccc48a46f52, 0x65fee3db32d3782d5a4fc9779d1706218907bfb53b6c7cac34c368c592456a6e, 0x3b632492f553963fbc7132cbc1d8fd8f30e06484cd6d03f8d65839fe90337e8f, 0x562285427ecf600399dd45677e0a0c7740c98fabf72ef7bb2b5ae082ebc02045, 0x17953ef863eee48aae29d0fa299dee0f26d4bca9cc777afb67c7034c1632ae2a, 0x54413b0f1fd5838886a50f6cc7070a5424e8a1f26592bc4e1ada45d8007f635e, 0x4b40b40bd3120f783360b07d564ca53c7b3503669aa91b1b84d0815925b55eae, 0x4f312bbdcb0b2413e8ba2c5e135032daa900a4540fdd13e4d0c9712f2ef40ccd, 0x6158c055baee08f38b75a0a0f5cce312130d84a86d70a277230180f66e3c133e, 0x6d3b7a6f95200831f211449512d86983f3ebdcf908fb8078d8fe05732f1a7bcb, 0x17019027a47f0a04f750bca55e0101338337fa32cdd504d68f106fd504574458, 0x3aa041d2507bc12742496ba50a1420f1d031e7f80760d818ce81277c5e6dbedb, 0x1a07cec7e1bb94853eed85d46aa333f422ab6be15fb5f236e83f3cdce892c81e, 0x68cb74029214b480f75ff94b3c41179b7621b6df5f099fc368ec4a3d70b7e986, 0x2b63663bd8d82356e2e50ad72d71e3498708b3117c5c5814cfb4b3304030b8a0, 0x2b2138e5d479ba6a0a8d0f6cdbf11fbe3061f1c61557b6b97fc6b0b461bf4405, 0x65447abdf2880ae8de3519ae7c3238341ac37cb01340b0057e8264822abfd9da, 0x4a6345c84ccdba23479fab4975279b37e5de194e3f7742ff0753225f09940700, 0x3bb8309026ee4936fa30160b4f9c0e4097c70eba9af968dc9278ec3d2b1789a3, 0x13a5141c0c955ed79f06eea83aaee0d347f24561288252ad8fa6f4995c9da722, 0x19f42e19c95a5b5feef84f59bbab8ab9dde578cbe3f89f043520eaf0fdf046d1, 0x2cf787b8e3ec055ffcb6d549ea346081c2a8586de90e2541e96c199f7ed158e0, 0x511786256f82c9b31738623abab75d6dfb8659828293484c4025272462652eff, 0x25c13f2e9117729db29988c41a792cb2aedb99ee03cfb3ee42c21f4015726344, 0xab3aedea8112bf6d5038a41580b1c19a613b42e3eaedc58524c60bf9f591547, 0x7097aef95229bb2b3876069e5036756bd3d5c333059d730920dcd021814e7b31, 0x594267703ac8dd2a57cd9616de837d706f7555d1cca3c19784ca0ab154a66921, 0x3ab8cdb05906428d7aff476b526f20d5c9e5e715207b94c126276db6fa6e3d59, 0x37e3a665a53c14fdbcc95aac4953b24e8bf0e498a2e98bfcbb2a5f86135c97a1, 0x3625dae897239025ec5e332c4de5ddaa6f5be414dfd32e16c118fc9a1003cb05, 0x3035f09d81ee5093cae5a30111bf04cec2862d0f789ee8ce5fd4f3dc08ab4f8b, 0x55567a0a643c33266c0c77db414f37ac4dafec85878985416a04751a7e1d6b23, 0xd076449fd7e6da283e6c1046a1eb788bb7c5eea7da5525b476f94715d97a1bb, 0x4fa285570a1c2f8e4bce1a96f1872b4e7402ed649548854312166a5be8c4b1f5, 0x12fd391414e7af0fe707c331c0dc3314bb6d2e5cf1f50e2d58a2ebc2b2d4c8cd, 0x2a69451edaea261641fd6f9d2f958dfedc70487c94a1339f9ab5dba4d691a7e5, 0x1c7358d289988fdfd41190750842a0b2140e16d5700042294b259f5b794ee87a, 0x357d547ba573194f66cd08f6e97b54e10353b23a254b4c0c708ae4b634c7da95, 0x2e7a66c1577384b79f305769c17dcc9ce815705f3073b270702774afe53c5d56, 0x1885b7f5bddc33176a4c83b17efc16df199abde1f6af8c1276fef8a7c6a7f6, 0xbd9ee6200980335196974e446ae84ad5ef62a00e0b0598b0822a0818e1b339d, 0x4225cefd736f9892f76adaf0361b8333f01eec3fe02529c50f99f773ae4a57d0, 0x1db7241620954a927d6738d8b120e5ce01bf73edfd80e1e03dbed7b24d11bb92, 0x227ed958b49305ac28ac45b064c04cb3b765055c902344d4c0938216905b37d8, 0x3db13966dbaa01540633b61d8e9e98137ddf47bb7a6e314df281ee3194119759, 0x6b0e0c3d22563ecac3efaf3bbb13882316b3c22d503b85aee021b50c879f3307, 0x13410e484dd52c71d1f0cdade5bf14d4e68878b3a44d509611676535d3d13f18, 0x646eadde757b4df36f448902115b47d98ed3a5e1d21ec2c5a967c2470e278977, 0x438656b047cd385234f86f1f4cae71218968b997f76e3dbc0c18576ce9c524f7, 0x1b0c9435a0d37d819dab5857532931f5a23bb847d63c5c6b36b9a3790c6fba6e, 0x55a33259929d2001d05c4d3ba3d1a2fde2ba560a0b5d5c07e098a7764a908bed, 0x3a5fd1bb6c3b7838907648c0f9a9ecda623f4784492d0cbed0ca057553fbb925, 0xfa29e4539df1d9d991114568606015469c13e682adf8ea78caaf32fae9e0f80, 0x1d9c6f504897355ee58bd88bf9db66274d53c30bafda3a9b55a5c7433c003d84, 0x4f80bd2c314d5e4fea8486a86c94ade143f0d95939195604859f5ba5820cdf12, 0x6fb219f7acf915a46bbc49e61b05a0f0459633406f2d35dff7aa9a78e381a076, 0x702d75a4fa11600374c2c59a31f3ea16a9a4000f1b4a1ccf8982753941438036, 0x549a96c87276186516589b64484360056f2e6c00a57d3a335346f7ef77679dbf, 0x4aff8657b4b914fecff98813bcda7b0fb991734a8a1b3253707bf86f3404ab5f, 0xe1d7d9394e9a11e703cbd2697345b3a5bc430a3fec740648080d8dc10546c8f, 0x5e86b566783244d74298f1e07e679560934a282c93584ed9d20350fe1491535a, 0xa701618126f17d6d5ea631ba8f6eae749b77329a5d739f26e87e397c9f0ea6e, 0x618eadc285c3e9a9eb91e5e6cf2b9113cd9388e275a44664c0506e23ccff6bff, 0x37fa459f24cd12b5a7bff625eebac5af23cc1008ef1348fa4c02917ab21d8a7d, 0x55c9f837eaa7a509baafe04328d00768f5d43c8b903fa64eb7c5f772492912ef, 0x4ef21526c63d444602e6f720c3ae26f88793efb7e0073482cf2cd4249285a499, 0x64876aaa1a0a824bd07bc488184b16b044e5081529961daf3ead6a7ad6ad441f, 0x11684614ccdf247bbffec9a1ff58d11e485668b0654dc5a56a0c8b71f827f595, 0x62091064b14de921c598b66001974459398226de63b69b832b8e7f3c9c4de8a4, 0x69ed1e4025dde9cd89bc8f8666a7b6bdd576271e41354560f8a8da82fb209df2, 0xcf4a8bad410a5efae352fd7c016298b17d2e0c94bf931a53a8f8fcdfa50515e, 0xbf6591781d5156941b128c774e89a653905baec0d859a2e5b36adc346b1b3a7, 0x694016ee386a7155c6b8c665b496b609151793c990e61b01750ed86fc236bdbb, 0x46fdac4ff59860ccb3a93795496e13a77ab08f91fb55eeed5b25477e668ce859, 0x55353d72bfbc9106df0bfde127ed93c6fcb58ee3172a8709bb56caf3a97d27cc, 0x14af8ad5b6fa1990412f275f4fda556704cdce91652debe2ba26b397f12febd5, 0x45bca34ae63266ee89949d784d51f796512344ef913e142e054c3643e9bde5f6, 0x51c15af90c1099c39a2d5bc44282fa3e125880c5f3558e71cbe1ee164980bcb0, 0x586d81c5b270591310a0dce6cfc554659314d080f9609a8768e49365c5f91577, 0x6e91af544297ec2902391db3336fb770d2481c010f49c842dab64f885a00d9b, 0x98998c4967b90d9e94abd78edb903236e9b0b097e93c0761c7917fd023faf3, 0x14f5fc99f6d63f074ca66d7f966559ec773fd5ed9456efc31c6a758b369c1ff3, 0x1740a2f5471b1eb0a5e19c0bfc4e2f99b5c699e538fe6b0c3156794034e787cb, 0x197efcb1c7b67bcc84962a438730da0ac165085f7ea3327dd095566ff9552883, 0x71900bb13c7db716fc7c954b08228b4691a95c904f7c55cdcbdb4ab02214c323, 0x4c07375dc8e18b7e97e59f1b0d15d36b336c71b2aecb208a258eb59bd31ee2d6, 0x6281241a381705e544b96e2844c44d157b0e8d12cd318bef3fd73281aa767c25, 0x6daf592e6896d6d0da552dcf25efe63b03837b07a6ed113e552672b3649afda, 0x15f6c54ddd6ac60ccbc81778c57cf499b8846aa4dc8c92d5104a796f6a7feeab, 0x66bfe08212a16dbbc0e6fcf97e8efd6971fe8b94d61afbfa626e1a5dde83c7e2, 0x3f197bb96f9013328e30960558f5ca0daa534371efbc8c1fffe49bc57072bc9b, 0x5ce34d9fdcb6cfe19b7b2d67632e916de37c0b42ac96e402509773e07653fc6b, 0x387c31e404561fe3a2e06944acdb8616aa57029c89e29650e77c99aca3a6c8ef],
    M = [0x6c28b2f7088ca001907c258dfc594dd7181377bea8d96b13b61e60ddabfdff55, 0x6e81913c7ac7174a9541b90627e6508a7f1d64a9379e1127469be5e9d16f5c1a, 0x698d6733e17166b8f7da2e90c109f73fd111aee4c9ec5bf9327655577181a001, 0x6c4af6c503949467ac9dde4f77720cf7cfbd18a55afdeba54bd56ca4dfe2ee28, 0x2193e40f00ed8080c08d08d4efc94f6a70f415ab50842f51af5928f797a6ca43, 0x3b51317f06d0a522c469146e698ca0326de80a04dd7f3626a5a408134be98d3c, 0x6261b60ebb388db8575a80ca68eef505e233d380e8b27413709eda151226cc82, 0x2fcc2899f14f38a3cfa4597fb7ec13026e6b48f1cee15076afce483c0c681965, 0xdfb74baa97d47e8c7a1c1dba258565c978336436fe32b66ecb8f12229f66f44, 0x409adb628cb9e48480c6b1563cbae260252b9b088e28084a778b18ac2a547c8, 0x1a6affd3c7e8c28b47f19bb222d1150bd410a3450ae63487f19d03297c616058, 0x4a7bb4600b58e68db8908a8560e608716091f71dc31f5ab300d8103e7c0a2c28, 0x6aafb305c0b71cc91f2bf09a5a9217ebb1e9939d2232ad364a2c59c640d678e8, 0x15dbe32e1987396b7da1ec3888b082c7ad8e01566303709f26873a0a071b5430, 0x3ecc3e30f65e9046fd101116f1f797e5b9c8642e615e448e3aaf2d639ae99d1e, 0x55ef3ab74dc7fa59b0b141a9ea94dd5719eaca244857935f3e0f4ce9d27650a2, 0x3708b507fa74659807d826201ecd3f46cd3294a0e66a43b220783db0ff784eed, 0x259791d7a63ddfe6ace0268af2c437713c8ec3e26f4470dc97a76b6e2fa6d5fd, 0x2d8f3aa9abe95623c74954daa0e7b24bc4f64e2761e30c0540c91cc72adfa831, 0x186afca0c93bd69e6f9a6dd9a5963acebf243a942f37cb1fda0175d162e0647a, 0x25abb7a502cee5e060f0a5a73838071e4a65db8d7e68c7266a6b32d53943e7d1, 0x13c736fb5c6b11558fece76b2008063b60490ce4846190676e761216b768af90, 0xae2fb878533a8492bd3f7ea53f5948a7f0de4cbb76ddc53fe8cb341fa09312a, 0x5f7cee325de778b3c1a82649bdad91cd3d61f5b4d754efcf9250f6b2b2be1de0, 0x1cb02ff1342b72cff9b2995b3515768a50aebcf9401e3329ae774f7fd297a84b, 0x1b92c0b51cacaf32b42f30bb5a14f9d9eacd62949f3bb609dc079affce753e9, 0x5141e2fb66a6fd7351138c06e60cd44c6704219feff69984b17370dc977c28ba, 0x3c4c35252923070d49d395d238bc3bd9f4df1158bf32998f5bc450c92f9fc2d3, 0x3c4359c6e44021f6bab049a9de378314fc54c357065fc4634309eb64fde5d669, 0x5a1ad0638ce0dc953f2fd6416a92c9d4add14a2340518a820b588a8956e1355, 0x72a1123e672be8d60cb48fc837cbe58b4f8e7b79a492fe31fd47f6cf4f881820, 0x519e0ffbac54c2dfe1c3bf01a9fa568440511ad4a501df357a0915326916956, 0x348d4e75de5ff4a7f408c7ba2a758cd866589f346fd6ea28a6e82590316bfa2e, 0x3446c9b0ca41ca6e72354fc6b68cc14d89ebc0ddebfa52fb4c530657c7dbdc1d, 0x379645f0fd61aaec51809d857caf90c4294c1ba663fc76c2738b4b3ef6354dec, 0x5562c1a179208e34e52d51fca9066b3907cfee59f878b62e93b90704809ac2ef, 0x368c873f4c89a2ab302aabaac6ce5907338bbd9892f467a4ed8bcc1fddc897ed, 0x4781c82b93d6d0cd34ebbe0e70b9fdaaf4e39d12c041474945d3a3cd1b9c6657, 0x66653ff1c3b80352169060cc9dc3213e09db61c70deba92b62c8ec6b7b1c6b4f, 0x5831d0d19e02b05f9abf0ccb1d5685e4aea7b365fa13256dcaf4dc4c511bab21, 0x5c6c711030387c509bbf484634e203ea93fb4fd1aa24ff120495aaab3d3b0ce9, 0x94b575b1895abd2b1153023b652750e9e5576da7aa135357d2be6cce38ecb0b, 0x2f4e922616d38b1c6f85b91b6f255073869358a6cf2975910e514ba257038558, 0x225a3eca63b7d7f5822a2d66bdd2ca5b78c64511602e0e59820731e1890f98bc, 0x657f678a9e15f491b594eff5737e8d745b89b0c02dd5e4be250cd7d6bedc1b11, 0x282967c74ed09ea224ee6709cf514e6dba5751303ee352bf5839365e0b890f0b, 0x2352264455f7d9d2455bf86284d097f93bddc057349a485cd485f54de5b173b1, 0x12c7cf3f7461eb1119ec29399945503ed9d4e0870c358508e9568655196b9f29, 0x1878120113a976c4d876b7b6a1ba182c28e75dc197daf85b19a89b3b21c8b67c, 0xd36271fe3b44b58183438d4d522bad300af46cadd1b40a1c1031c89361a8732, 0x530f4bdf4ee12f3a1041a9a53e1d280120da14bb7cde11c710bbdffe4cac1ee4, 0x132887f2d1327b4d21cf56c648547e755458283fd6e5edc8a86513612cb52084, 0x68ea60333f26e1f062bf79ed4ce64a2ceff9b4572da9e657a05ebc6e96f049e, 0x60e35c84a91af42b2e83b393e6c4551ad3f34e6a6d44f4996ba6cfd693088a5d, 0x496de55f676045f4c11770b2be9088d4116bc5468a11a1980c71edbceba7da58, 0x2dfc98a309f1ee1ddd755ff5a3b5d60b4b0a10b4e39afb7019568daf5ed3e621, 0x13f1f8559115bda39a120259d6a7b0fc2b49e0696fed60a3c504a4e9fee5241d, 0x4a15f22dee3388972acdc7c65beac75639b9b082ebd07a500f9752a6bdbcc4cb, 0x47992d9affc8fae1ac7f44ff45469a706e016f45fc9c23aef825f889a2b8c253, 0xe2a9e98dc1ac53fbe17810c6cd505b0d370c57bc9738bf0d49bf843373bf892, 0x57c229aa9aef206344b9432732dca4c2b7d51ffd1babf29697436aa0fc64f677, 0x28f59c21e302425152cbbee35b726ad05dd324a77f7df5ec82385df1e44adfa7, 0xfe599af65d8ff75d61630301bad8173d0370feb96814631b7593350fc6d4c66, 0x61c3485e824731990c490295a6e5c46395b3c98fa63a514d0b153661d3a6d6a1, 0x54d3ae0675fe72e8a806864cb0073c2e7714cfc7254f6bea3de260ce6a6622f8, 0x150f9a2653931e213867225c41224453e08c17ade6d90df81aa7fe9a2fbb7c9e, 0x181a2e91df0fbdf04299977e5c7f737f22f54e74d8f2421bd582aa165553b9a6, 0x621238062dacf59020090f2228de2876a4f67830f47be1b742b5b93fc5a48172, 0x175cda5f9e2e7b51fd4fb50464515bc80e85db57b3fb2baaa875d1331ae659d, 0x6f930af9b6c9bf3811bdbf86dd9c0143a96b418530045ca2846279d8b52be6ce, 0x57e3221f89ed8a1ef5e72ffb7ba85be6247d43c8f03ec2aa7fef64f395b5ce09, 0x9558fd92301fa2ab0f9cae1b59df2d219e2b4e1dcab47d44380d1c5a5529345, 0x6303edfd5b6ff004c9cf741517f1575fe41422b625b184309681ba478b987703, 0xb5fdd391e97af65883ce0dc10759c82d3fdc33cfde2001888af6ff0eae16559, 0x5a39180fdf63a9aec751c207ab1b6b4ede50713eed51512c04043a8229b61ea9, 0x25fa38b3282c496bae01ddcba312b951fcc0c226262bc53a6dd645496cc78c1e, 0x5774b65982acfeb3ace8f81a5e2ec23f4898a76e3d2a82e7aaa395089f80584, 0x388786e7b220b4257abd2747f1cef9195a7aab2d0aa91b244280b2177f129845, 0x196cd7b77f0002f2362661ec7acb9ed889462e15212d7494f63a8d31dc5fc29e, 0x1922412a31f9ab2e063027a357ebb97b7a05791bb54f80993c1ae62ad800cda2, 0x49ac6b5645230d9a3eb97f0f61e086204b9d149ee844b4ff76da98a4aa7ef534, 0x38594bfb44b6dd2dd47f177d409d6972dfc41591088264d75871cd3436c1d086, 0x226a6aa5f64703613d95650b3e8359edd551bef9633be50388f90df46d596ae8, 0x2d0d41728ee3d917249143c24f266b2a9e37e9aa69b627386f49066c343c9b83, 0x57979c74033639d5d052f354a609f5272e3c244e1b6200f1cf84c0d080d48be8, 0x6ab79ee71ffdfb0504bc45db9093baddc733db3f9232cb0d4158a66ee12591d8, 0x6fc0802abee5c9e95a1a4e2b28f6b313686fb1645d535d0be808a81db12637a4, 0x6276445fe308c5fb2293960693d6e2e3786187db4263bccd952d71c1521118fc, 0x16fa8695d1b4a428301a8a0598217d6f768c4ed9b28d0cf845bf0a7f78b396f5, 0xf3b7566783f99712ee6b579449a0ba27f883248f172b12a2dbb2ccc864b7740, 0x69cbe44832369fc709840fb5dddb25e056e04dfaccb2c5289410a7f5bd800f39, 0x45550fa1ead2d22a90ef340815a2da6fcf5a385c2bb030fd076cc97debf9d77, 0x45487a89743b9af4f90718d10002039905bc87c1a490ab018aa5dabdcee59c9c, 0x36b6515d73a03d0d3709fd9401566277ed9dcd449d23b0c3d90a716c0b3110, 0x187f4cc15797b7b6cd542f09057c8ba18e84c9ed56debbe532c3fc6e7295a837, 0xa0a266beccdfed42c40a3a6a132f5e8c7ae89a73f44b1747cb5c2e3d22ab12e, 0x6b637410294503c9efe4573706b66638aa46c6fedc45bda24cf3c746dc3c5632, 0x14e0fd1a7f6ffcd73805db43f4950486400a00d4cc1d043b86227dda79382759, 0x6cd8ef47892e01ccb9f2d008613712b777b85ca642c990efeb2613b15e2fe06d, 0xcabd70d7b997c2eab570c2e2bcac107f346c87da5f9fec7a4a22be8667344dd, 0x33f5e28129c0216c338bc006425ad8ee8b4ab9990f7adaebc6cc73242ffef515, 0x527a20186a9006bca2baf81b8737452a0bed0f70d75dc9e53713afa75acd07dd, 0x5bb8776117b1ffc10e3481bda247a913a766be00fcf903d7a579ba86ca923fa9, 0x6465467601ea2e3c9f4f152676a3241cc69815050f2229cf643135cf021f5746, 0x2beaff05d51e31b12b584d149da8212d1d5366c166109267f7c56e396fd04519, 0x31a350a655960a48d82d842c31a1e38dc78bc09b6a9d0b9848068b4565b468a3, 0x733649a8102717c25576ebfbed447bcf3403997229e95e857f3a32194dad1f62, 0x270879c2e86cc6f1d8682ccd5251659ca59224bce8a99ebb8789434a89df257c, 0x12007e489609c15cf5c682d5d19701189b95693c9f7f7f71a22af3029a505111, 0x2664a235c58720a5e90aaa00f1c3c3b03ab56251e8a385a0355ce234bf259724, 0x638112dd69a48adcf001b722b53514ea0e56341ccb00aa27ebc93320ee395197, 0x1b8b66f3bcb77e3e521bab7fc6a856e4280fbc4af826930caa867ce8c7183f1c, 0x29034a2d2b56ec6788737e698ff1866e9ef1f82a7e1c25a79aaa93485bf846aa, 0x25cab73401a714a1e6ae70048b9ae64aa7d8a68cef9bb4a66a9269f238b59017, 0x731da953a78004ff298142af426fa4b39e9c26e4a692397f01731134241a739c, 0x48a732af82f19799b1b7c0f530fa2662a2fbe0475ca2162fd60d90dfedda5008, 0x251b4b8c5391a2cf371141c4b764ca7e4ba5ac57984d27893b74db28db92559f, 0x98f60d317e2a9ba3542855494cfe2fe79f7a2d20e5c9e3ed535eb582f2266f, 0x31d07a5c42a64777d5444263c92969a92dad383c1df85135ab79246ca40404b7, 0x59ee5ff657a6beab69ec313f15f956c471529c1bea83c13cce2f3326d37adf1, 0x12f5e2bc0b8fac231b3ed3be94bf0664ff114ef79478812af4c12fc80e40ec27, 0x4b196a41ecdadae1d70985eab07fb05386daeec331fa8cac36cc2cb5ee9c7768, 0x59b0e15392f12b7a9119926a8703d02b240ead89b693bd3c9a556ee570c2d44a, 0x3f233153a47a17182665777ad58677c15ea8431990d7fbfda96a0ad3a233d666, 0x3adbcb8213c63361cec965b0f174f47badb050980061a39891404f1dd1b80778, 0x31ac4b944c2df90fd2898b0ba81a391e78d4465d241fe7dd7e6aa815faf6c513, 0x34c3fa3837ed21e437aed85c041232c020cf89ab0774caec574d23e9a6fd42a2, 0x379b46fdc3cd3a94c99916ace5f459d36928d3a2cdd0f589f10be6a7406397be, 0x44762228511185a60dc23ca0c8f2921136dfae191ac76c2c5590bd796abee92b, 0x12429cd5739ab39bfe134a215cb90ada335eebaef4e4f6766c8f3e6f1088ac1b, 0x4a66e154406ea3d82db33cec3fe26dde24e30bb6ac88c2de56f5cff56229c22f, 0x195d1eced7da1070e1086f9a4cc13d0d61ab6c611cacbb18833f4e645066ba23, 0x217015b24875eaf7711100f7fc35d49bf407b099aa16ad3f6e7597f582a04ea, 0x600c973f8069113a866067e526bc11594c22631cfe42513b9c7207232244e390, 0x23c738f656f0652f14d8ed43d63cb946f381a72fba6ebbc645ccdffd984cb87d, 0x723850c962db70352b824c10a6afc96946c4d5e1ab462e67bc57191febe6fbda, 0x6bf7a439197af152e7ccd055df56250dc5af0adceb7a51156af51a58b9f553e2, 0x42294e4b33242185200678a5e79fe4e9ea4a0600442c4ef8ae9ee25c168972c5, 0x97941819eb87cb19de65e58f9f11b27088044f6a1973a14312309817251f191, 0x116e832f38988b0d073b13040cf8dec653bee28041618e9b57208bfe67c33a2e, 0x5bb0071d92bf9411bee4cf55b0293ea1a6d01f310dc6ecbddd72fa256c5ee437, 0x59814a7aa5b4198064b69a1b8ab5c82a89d6d5e0c7897979de2bd8c9047cb6ef, 0xd174c8470f043b648232e9539729b3eed72741b470f7a13fe4b60824892292e, 0x1ea45e3d3205699d420f335685c4302b847fde0b5e635b94756efc15986c7590]).* from "../poseidon"
}
