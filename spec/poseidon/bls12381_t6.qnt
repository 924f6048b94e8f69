// generated by tools/gen_poseidon.py
module bls12381_t6 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 6, RP = 60, IDX = 0,
    C = [0x18ba13688329bee1d93fd39128f89ed425b23757a8c27cc96570dcbe9e8ad0c0, 0x4c885b226991acbb64b966e17f0aeb3185747c9530f952ecb817988216d7955c, 0x16f4b032237c094795c0787d12da212f4200a4574e01804b6e0a8b78ec73ccb1, 0xc3a3f1793580f70211dbcc958b4756d80f3c08ffbc5e040179c2128c697f284, 0x6ff8cf88bdb8c456c94ba0f23df55bfcb6229703fb110f4997a3883b9895c123, 0xd091c3f9f976634804faf9c72250fbe269c68be4ea113970a5e5948f55f180e, 0x4333ec41a7cae8841b9c6123f6ecbd365aa2724f0e3289785e316f05dec33fcf, 0x283f94230343c5898c3f6830e9cf3840df1972b29a119dfd443d41a26b6eddd7, 0x6ab27cdd9bf7d8f8202250100b4436fd0d8412da6bc140922212d2146945af14, 0x57aabe0b8045782deb86ad328ad500c8d14f320a6dff02d5bcdc432430afbe0d, 0x397c21a9da735527fa68e0eb47e61defd1a073878e2d3ae5995367fc5f0c6bd8, 0x19ecfd41f982721dde3d9efca83efa8ab853e2a5d57b22a7eb76f366be6bda66, 0x510b1d4ddbabc59d4d822ee0dcd8387832deb12728aa024a6efa88b0e9a02f40, 0x3718ee0a3cda71e18c10c2c808b0ca2b83700316ad5bc326be10778e244fdb29, 0xc75157bc6039cc18dfd163af65605772e1df8437becb14e5b15870e4ef8c324, 0x61cc1b07222d5c663c029470d03ee12e2be237a9920ca3eb5f99096b588887ee, 0x6af9e40cb208c1744b96b5b3ff228afb1e8a935930ea9b1a9fbf30b9025907c0, 0x1d9fe9dfe28911616043cd31c18b8a112b584003bbb906e9b2b2df56cbee8b2c, 0x1d945f98541447c61d824c98075fa755039da0f9216e72c23108387b722042e9, 0x24ee3d8fd15d390d4b78ad2a991f2371bdac5e8a3022c46e73ce9441c2d81dd8, 0x1c313020d4057a1a711e8eaf077a67fc0f03501ddcef40d1ad9ed13f16f955d0, 0x52340fb80c91149963f74ad4c5ebde9e3b5cbb941ac0390cf214ff4c62cd581c, 0x1b0982d12b95c67f3ad162393d219ded79b88dc280d25c58330072c0a6b95873, 0x784a1a36d623319c2a899c6c7b4b13d0b14d22c7457e381296d7a13338b1db5, 0x1f090c024166c7464c6b50cd840ee7b787ca4451a45487a1d02fdb0f9cfdc410, 0x5fc9a29117aca83513a950ed4f84b84188588d9c72c7e5230a79925ed7ac9beb, 0x6d52717e0c1a92bc60c4fdf629caa24467ccb2b7a5c6c6810c633db167237767, 0x5ae82c0bd25c2f7c382a9c2dede832c9356a53a205ae7994dfedd89c4b21b8c1, 0x59c6c361cdec47e018aa69b79fd0ff4bf1c8a59c7ac7efc4612d7a7092e1a7c4, 0x246d79187edf3c02d7b6737ec27fb4bf093176f82717aed8863554e1a2cf1ae, 0x6879552b42344a99155ded23622d86901cf34a89c7d7e9b601bc6078cfcbdd04, 0x1bfe20fb47835efe914c5d4c9030e859c774d077e49a6c6e0df91ff3a5cf990d, 0xdabbd61a749cbe4b4cf31b2f1213138a6647e4d13a68ff057a2ba851dd185c2, 0x65f39d2e32a8a346ff5fd355443f960429184b3e51da907603f07de9a2cbf8f8, 0x5854472710eeba7e739cc07f883731128b1fde7dcba43efaf1ecf9259c1c250, 0x2e350a875ec5f87b0b2df0c09175b760635e66717093b0d6927398146995b9b3, 0x37bbf4615238d819fb5df1e16a4f3a4ec3ae5881c749c4b4f437fc1498589441, 0x4e85bed98f5b5e3c289de3dd81c7db11154d7b26e1963665357b7450c98a6016, 0x2837182380e4cf38667b8afc9a99410a4d30ba4b7057aa00a73ab17327043ee3, 0x30a4cac7f8e7ce9c1e94648a9c609b0804f04f787977be2747c6437bbfcd32a6, 0x4aaea7d4934aa642366a6b3c8a1f6fb68de9fdd814bba502802c439504045417, 0x6fd79e07f2766310417600407b37f7889113191c6408fe31ee6465d07fd641e8, 0xb338d064f5d7b176024e8cbbde0e142e50ed53d77b3f6550c21cc6ace03ad7, 0x5a5ce6e66b28f0363a8f0f6826982634e69814dd5113b2d29b88fff4381eb91f, 0x2a5e76b59fb0fae87c15e7f33806fd45e9189eca705d7024b42834198b1d31e9, 0x2cce3d3ef66c03cf2472c307c3d230b5451f0da89e38a1820200f4228872dd41, 0x53e4b2eb3ed68dd8d727a29fcc01b7d86165ccc0c55b0088f44db6a1bdefee1c, 0x4f8d2ec951d97b0829d420ccfdf34b96098a461fbfe9cf2ac0ae2b3dbcda73c2, 0x18527cf5d38f83a28eef2b82d50be8ea68aea3a8290edf620f5b99e707137f82, 0x3e79160c2b3cb708fbc652bf24ae638fd5fed25aec7b969c5ef3ba6d5f37211c, 0x6e7c959fb9ec941c115607b60c93b8cca3a01c637035cd40091ca4f870cb9b6b, 0x69b12c2a8f4558dd9ab332683b157b71d75463828d3778ff60fb8c8a0ebf0ff5, 0x2a69034a4006fc36c94a65157ad16aea83121575661787775db2ed1dc7d86101, 0x5bf796601eae212624d904b9e7cfa71f2734722ec45f361ad87e8f7c3053a915, 0x193d1c7840a9f3b2acd1b856512b072e1943f595e84f75bdbffd06586026b552, 0x29bd49cc4d5df4cef500948a8f78c1613aac8a3e2f19a4fc2a95ed4a5855c72, 0x19420f4b9290ac6abeaee725221bf4901be021946cbe6846f7fd802de5751d80, 0xe0f390fc9e584104dec56c56f2a090631550c17706ad156563d3c09ffe7dd5d, 0x4359728d3c0d16ec085314c9480a95aad7bc3a13ffd78e2e7253dc90700e0e30, 0x292d6c947e8e63c70459b00df41e48b3d871944910376938c90551f0a01489ea, 0x1563af7120581e2f6d3a26db6e9c126f9e0253d8fc042d9c87510cf47906069e, 0x719444c7c949ff1303e1c2819d04b0c803e381f87f6dc7f4259bbb28c9102e64, 0x3353c514977652d8ad53840be3cd052941eced7bf6d0d2aec32d5e34159b2ce7, 0x1fddf9d020448711b208157c0f4bf36063e0704f12b08eab7230d406a031513, 0xd86b9bcee5081ffa02f28798b7ea98834b9bbf80156df23df535f7e584e8328, 0xc40f23fa33baff1cfc2790cfcac4df70ffa76741a491aa46e620fa39b0c2a4e, 0x5d5f8929023624bba5eacd8a358a410d1803ff7086554f52a9d01a7db34c77d2, 0x16732a03c4d76978587d9745bddf074f33c599c0a70015baca8ec1746bbdbb1, 0x2c2f836a16d48914327d93aa407b419dd3689b9841ea989033c1706c5824b6dc, 0x2ba0d8f8618575379705f10a3f60917c337f3635d7aa82a639ef24ff7a1eebca, 0x35f750029d8a3a79906a8844ced8687fbd3ff9e1331229d50e8290ab0b9a7431, 0x28290b124798873684cd6201e54d9565ce02d90ceef8c8fa3d3aab7b74243ff0, 0x4bfc5514937a01ad384bbe16eef5ce17c04310a797e9ab8885637d08993ee644, 0x3b9798aa544994bf5eba737b0a21ce2cf21838dd61f5741834b2c60a40834afe, 0x4a64b589dc3b5ada06b545a700001e7aa722dd196cdf950393df3e1e06f0d110, 0xf581798d27bf0a9cb805449068108546c1150a3082b40bedaa9b632cdddc9a7, 0x3c7e011d44b3312ca8c47ecd5359270c76dd9870f3d28a4961743b2ab3e19e91, 0x4634ee6a659d28d5db363978dafd875fdf2fd11e26fc3838752bd3f936206945, 0xbca687cc644a93df9a1052440de6b478f01fd366da795cd0640c561c81cc4d, 0x11db15a2b032cb1d7ec28b87db0f083af8c5d1caa11c451f6bc34d7f91a9d6b0, 0x55314c42ef41a057176f116b8df4d081f40fb689d35010b6f42c639cc218507, 0x1fe1d31a361a00e47d698b654a55eb4dcc4094ce5f70c90e94202c9167649079, 0x478abed90f3bc6739d53e7144d7d267d6264d4bd5ceaab8a5826545280ec24a6, 0x69df58556a30bae5c4945442033a34c501c5d94a66cf8582f59d7353acd0fb52, 0x6ab481e5adfa3a4fb814f3a9d075c219c8db73dcf0f93581d112b0263b246d79, 0x690dadeffee8708eb03315d19891c73a8348a559d3084f6d52e6d298ea72c942, 0x67783264a8f400d33fea0a7df05a62df6f3d4ea8bf9506ff5c1f3d9edf8e6d71, 0x3f9bf3bd385ba2d9465ee2ed1e44744b107a3a8a1a3611714e72aa4309b23047, 0x1837def56a9bf4229cddc7ab88bcdfa3a4baa5eda31e340f06e9f2ee7096dfe1, 0x562a05f6dfb6b8958ad8cda753098ea223c8b1314f0123f14ad3766f91eb45b5, 0x115ac0a99fd5d9aef9cafbc91816daf633ccac1c94d59a97443a77b4eb627da2, 0x30961db585e1efab4707c8f5491b67e42a09f8d705cd9f3b1392763191949cef, 0x737b4daa974de8d15d630bd9bca81f2a7c80590d6b13e42c4b739bd576e80f27, 0x2687e80d736589a19e72a4c91f7cdf60154aeefe5cb7c10f40cde8d307cf9bfd, 0x425d39e69bd1d07043f1627a60100e1bba6a4bcbef0f914b328e30e08178366b, 0x6295728110ea8693913bf3424df1ca12c9d0f2cc63160cb515a209baad539efc, 0x1a662e47bd4e88b7c9f9ee3cc899868575a878158e799af748decefde71b18d9, 0x49c1ab4f061c969507447ae351b8a4636ffe34910969264ba35f8ab4ce6a7ffe, 0x39f42204c97be956f8b0d84a6b835fdc3b2efb00623bdc349b295143231ea4ce, 0x5919c94e0dfb27772465021ca8462b10c1c79d1a4ef00c7dc959791f662500c1, 0x27aba1b5f052afbad86e5bc282b884db54d12c4dd88e5c7f893ac871675b7a34, 0xd947b15dee1afe4109c4b416c6905335cc90b7722ffe8a083407faca3fc59cb, 0x1bd367f64a579e303758243080c8f36f727e55884b62d73b88eb6343f4d31704, 0x6205799e337383aff39261ac4d352e8d72ac8b22efdfc5a36bd4e1b4c4894dff, 0x6648fc4e3c6b7ef343a5d18cb9a6a1870cda2faeb1c42a0353b3ca1be109cc6f, 0x3f5a04c168730cc56c781cad6138c2f3a1b6e48bb0175605abf6419c301b4b88, 0x230025981e4b0c85f61ae026da6571e42c83a8ffd8e8812bae59e844677eabc7, 0x39ef17c35f4d641c85adcf245b383ce0849a9ef21c0e6f950f7616c7c80b13b2, 0x5c56c84be6356d05e9035aba4fc9a7b0e047b75724ee2877c24e21343d35ff17, 0x6135b1a68063cf0c56c3ec2d1f2f0e1115735e9ff23659ee616584a1a40ba232, 0x68f29a0bfd149174b13ca54baffef95cad0f7950256e481d9b5c7c1c2bfd4903, 0x70af4aa56a02df71f02f3b1bdd6bd9e07e03fc6eccd060780f180372199524b4, 0x16290478b3e6a73aea9bebbc3c3e39993b4de7a90775cbf61f4c3386e7be9f76, 0x2514cab5ff09f1a01d297d1c0a0377ac243ba36f053f4d2145204ce24091440c, 0x46e3f714a8a3c18df9ed1dd5e0d756c27f712efecd6abca64949877dc60f63fd, 0x6fc2c085094fad46c0d70b6d4750093a5ed827754adc65e724fbf6cd5e24e77, 0xdbeede2174645968bf80c25b9d9660afad14fdff6df6fd1bd66d08ea623c2ad, 0x6f9e81bafea1d85311bb25a3076bd644eead686d9218cd4d75c5eecc2b85c61c, 0x41ca18b9bb945b49615e49a9cee6c88ed95072accdd71ab6287302d3ef42b13f, 0x5a7f74af74f801af2c543ec2735625e927a7b4b5baf69a1bf5b5a39225651f0d, 0x240277c3a3fb1416c61d3f442994e762be9d472e5146d9ba626ca9719cfe8190, 0x262297a3e7fae547a3be2f10d90c65603e6874fadba3707b020b804701cd0de9, 0x31d1140e0ab8a34236fcfd3c77664272c59e5a7d5b73452fb39816d995fc0b15, 0x1cf7780613a4ebc529300329285c2db9ff2710660e24485e7cfbe4a133149cb5, 0x43045daee1704918442f52a6e4e4fd3859e3471eb52cb917e90aea8219838d83, 0x28beb4c6c6ac1a313c6a506ee57ed3d3f086cb73171e2498b1066061c2e897f1, 0xa3c10c90fab9cb5e04d0c620607f8ff38246ae25da9676dfbc6f3bad20221ed, 0xf37e99240ca7fd18eaea0bc4eae0987eedd34bdc21d7ff9924c58dac13ff3b6, 0x1fc96051a95d4d181de5c412eec20a715db6f49298d6352cf35f3651bfcecdc6, 0x2dcef91729de989871b2d044c6e3da51f64a7f0ac2b5e966d190422454f52a16, 0x6490365db2a5dfdb4f2fbff3d0de1295d1573a7af4d5d97f42c6cf02a91e224f, 0x145f72e5da913813bd78ffe6cbddd17b5e4d42e025debf65c824372d4803b3aa, 0x10ba7d6e8171049fddb71a224db0e3d6d3475db0f53878340c9f43070478fd6c, 0x3f294b01ebec2d5cdfa35e746df3c07c6c89c86d4da22fd305a3cd506fd1e516, 0x4ab67fc453f940b727809019111b0a89ea4ba5167fcd4c89bce50c25328a4058, 0x5b7bb5df483062c7e79f2db89917a234665e9d4d3d3667759c905cbf8f34756c, 0x4962ebb8a28906566b2057df64053fd7ba1f4a79ec454ab05d962f9527088c6, 0x215e681128e4ee44cb9eef6491ea9b68f087aafa42a2174a5852291c8a0f8b53, 0x685d0633672e4294a9bf2898af5e5c8befdca1f512ba1380f3b54d38cbf1db1f, 0x71f82741f2e282787e5d5384b81317a66da8ab5600556b658ccd238b40de3ff4, 0x6300097a933539c0867ba4bb97cbd217a2f7f71148ee0ed58112730cb0ca3ece, 0x53bc70794c3fa542adad762db098acd875392694560ccd8b5d43ab84d73375ad, 0x3c369dff665e398abf271cfed602c16bfcbc8079d0e1114ade1bdfce8cc23a7b, 0xc998b73485847ffe1ab6089e8dcd300740df99809c3bf98e9d1a25ffebd9a80, 0x2cf0c2fc7c254116a185d2b40c41e4fd79c976016998418a246264b6c7633ae4, 0x17777bc7bc02015b7cade399225ecca9b1099aa9644645e65aeb0da120a1433c, 0x1710ae97b267718993b0ddb9dd4517816a6fd3c59381645a2e2c8b6d02e8f572, 0x5dc0295bf4245c53d84090cf4979b3c7fbbc69dee6cac533f67732ffa4bcb1a, 0x13e1a1cde3cf6e444b0e1c99fb5cd790fe45b531fe476ece938692542de837f8, 0x70fbf8a117e5007a48c6a9aa71a9313e5ecdeed8869eb0700c864a7227145d26, 0x3a2ee38ddbe9851a5ee8cdce6e71e380a108a1d4c00588373c4599a4cb18403e, 0x1f705a2e81432f6a8add22a067e6f9496cda3f91d1be1cbaf608c9501249294b, 0x284e6b2e122a1cb1e6e514cedc1d75770f45fd35e7a956c7abc30fcba38f17dc, 0x65434106fd8dd345deec1cdd1586db7789197077a07ae321497b3fbb9c7c61f1, 0x1e3e0b21dade8a23a453d5550961888bc80542eb0b479dd9a4321b13cb4dd350, 0x1d3d43dc75d76b5e8ec694134ee73acb1d2523d212f68ec54001d43250827c0a, 0x5cb1f00cdecb5cebda6e1d5699131a90cea67fcd2f675a8bff43a4ef173fe842, 0x6aa15b828fb9326f1196b4918f95ca92c09effc5f78375b428e0009d904634d8, 0x4788798ca3ddf5ef59246d1b9ccac35487ab1af3ef40c2cae73fbf0a3fb9f918, 0x16d1926b61ca3d7adc3c0f659a50a81bca39ede516ea94596854103f87accbc7, 0x1e57f3176687deb7a4bc0af25280cf5ce20960da8810c0f07431ac17c611c803, 0x6ffe0fbf5559c938632eafbf1c56c2b80431690651565ae7c255d99bc67c778d, 0x5a1103397b5ccab6b9d3847ad418ebcb26eb2c1dcd558b9abcd38a36bf173d24, 0x5aabd7b454fa2ac1c2b24a17d4098e24110de3d4c64f4d21ebe790287d56e57c, 0x2107aae7af6a0d78348d67da7dcea7b4ec59fec6f23ada89a5465b23cd0f3240, 0x1ec016529bd381793e0e6aed45f9c4d46eb7f5d496fa43cde7561bac6e14dce9, 0x6c4c1ba27a7ccc4d90e5b73b3c80a5a238be962fa5389184ec46288ac9cd4a69, 0x5002e2725f7973f7b757e7a5f9c319d51add7412999a39194fd8928bf0299ce0, 0x1a1e50fd78bdc843a6527f57a24041252b932324a619951af44bb01b67ed6d6, 0xeacfb32df4400eeef119477dd5a5917dbf7f99da97cfe9751d4b868a7677800, 0x49b2ddf398b785939750c6d762972117da28f2739bde4df0a52ce50ce62079e0, 0x475d18cb408dafe1a5f05e533ca6c28a6b33e57ada98958c1df671ba0b44574d, 0x2f35796fb55dbeb47f2b6e0f7ed48611d3ef319f95f1ef86fe30212f5303b0d4, 0x2c14d60c2d34ae4055d0b821d83db3a58edeb7cc5162e0e4ca133514b61bea81, 0x5d198020c7ca3370f4948e8a9f98f6447b57ee171a2fd888647cc00f6bbe510b, 0x1edb043ad71fec070b62ed8a6b816297b95a27650e338e248009e683693d81ac, 0x16d8507ecfca3ba827d7ec4c3be4a32d87bda0c2043ca0ed97e05fe9251c6b7e, 0x1c33d411224f447d35c12821716c3fa2befdec744776b785b60f2f66d370c189, 0xdd02443d2d9014563a730427800a001a156e6aba4b2cc4aec7a68bd6e769739, 0x44083ace2f5911bb5a5ed48cc2cef241e9925247b8986c7cb9c50df01bd41d4f, 0x5cdb04cd5b15af2b46950480c44215f468f66626b0c75b976f302b4a9d2591cd, 0x6fcea00c2afe7cc48eb6246b71352004ae095eddf70f2b57ef290d3d6b365183, 0x5c4a03f54ccf96ce813c5761f801f1a9db47c4dc747c6b2c200b76f706862602, 0x54f1e53583315e26115059b6a51c932a54f6df13de59b3471af478d5955b3947, 0x481ee6280fd86e68da2c8bdca6c2dece79720c22a5988b7ac605d6c779fa9d2d, 0x2e2318b7fe712e0611fde17ecfd953fa1a1e7c862228a8d6ec7bfde77fba8b7f, 0x2f26594ff1241e7b1efd7bee7eea23a318d3fe5fdf332b66f1e524c0d3e337ec, 0x4f4bf13adaeee885d13d3a764091920e584816c75591d255b86c6ce803277ce3, 0x42ab6ba5e4fedc76da28f1e38e879342eb77ceef411a8e50b6b28d0eee2590ac, 0x1274426e192855efcc835d458b667ce81b1c12489de71e610dfda1ba6c3af466, 0x16deaaad75ce2f6c961e8bca621242705c194b5cb1c99a5ed9e3053188d13f8c, 0x6697e8c8eb51e637b02a0a533bb870dc5a8551ff51a1c23a4bd1a4df0ae26471, 0x164df0525950957a329d7872ff864d5d08a0cde73134ee6b3eb25b6b47c7558a, 0xf4a7c6b521547b2479333a6c9ab727943575e483a00c69b9fb8a3e8719e66bf, 0x703538dc430107758436d8e4d58a385dbd09379412a36e4865846fbf870117fd, 0x15f942a3b896d162767ee7dd8df3b3ae932de289b98a9e84e0da73041c03e002, 0x489aeae30aaca875106f3b21dda9658bb3e6dbac80e9bca753578eb6b86db6af, 0x6dcc4f329e054e7f89a61e1001f5b619ae93355d34ff9c7349366a70f175d9b5, 0x3aa538fefe507dae1847930c5e5b13cb1cdf39536e661e1807a3451f0d47a944, 0x1748bf129ae3af53d6b3113020054c244ebf95e3f61a6b96a0e34485fe665716, 0x49479d007ebb619215890d8266ba1f8d599fca6f87958398174f1966448a1093, 0x32ff724fb9fce7098d7305fb638b3d507653147a67faeea59a3373da48954e71, 0x5544239246d59be2ecf1cbe97266373727e40558b1fb0d7e4769d999ccb990e5, 0x77883cf8da4900f90692e0aea2fd6f1f84de3c49020aaee415863ba090eeb3c, 0x56880d2b706ba540cf4f847fe88b06680437088f2ff358473c76cc9955efe481, 0x62411ddc3a5f7cacb7e3947eb27fa35d66bfc6f0ae77c3ca470ac53c5bc85362, 0x7148443aeeacd3ba4704d6340543e911991da1a956e7f64a22588359bfedcd67, 0x1ff084ec5de7c808f2ad7e0a68dd86cf8fb1acf2bbec31e3bddee083ebdc5370, 0x5c1bffa00344ed66f48c04255083a5541cb5b173d4c25c4cd24cee99bfe12d33, 0x2ebad7cbb0734bfff6752305a3b1b2b62e5e705e2d8c286784452e04403703ea, 0x3c5ea53ebc4c2182adb8b09b28909843934c79aed1b920567500da1b90d504e1, 0x3cbd553be1b8418d7e816b51cab6d4bc456f41470dca477507179b6bd4926ab6, 0x48e23d6f74c49ea8f8e2a9ceabb9fd9bed2b0c13f888a43751ef2f215555027e, 0x7069957b77457dfe5849eda8ae2af22afe9918487134fc842cb60912a268f022, 0x6baf82f1daf0c3e3fb0cc8c358831a4572575ec07d94a8cbce202dfeb6ff25fb, 0x56a4b2603f0beefd266b6deb1205889022e124892ceffb82f14b2235ce499f6c, 0x629e5207a458d62f50c63c962d49ba9aa3cf956218e0598c8203bf14a348c3f3, 0x24444ff480b3b4e0b1057708e0fff850cba8beb65d733327c7d3ae6aaa350a86, 0x27149841ef86ef807e27e75012e12467e93daffb78db8bf22e439a3d3e19ad9b, 0x67881bec5dd5214a4b715ab7c2ac6c9c1fae3bbe84a1701110e3a3255548c245, 0x650a1ef7d63ef8fa95a91635520367fcd30f8d2ea95b99bf99e15b37803120e4, 0x47364bf9e230f4b32a203b50d3f8798b1e5ce798dc7f85991e8c11d08e06c4f3, 0x6014d5030d553d5895a53a06d736fc3a284ca73868f65fc6ad5253960c2ae18a, 0x3d422b8e312d8448f1ef241cebfe67882d94688d79a9d86c6ac7d67b1fd6fdb1, 0x66886d12309458d66eb94053685709dceb6d48bcc6f5527029d1f1899e068be2, 0x52c52de9785a91e94ecb9982ada383b93288649ed024e7c48ed9a66f92a47e35, 0x47106da638559e1bd9bf6e04c448181a011d7d22b40c531738bccbfca037b4c5, 0x3c111b97ee860a10608278229e21e97528dd90055129c8241517f73912b23458, 0x2c5e34e641905c607014a287654d7bf5d1f15a31cf2ad6bb55adb1f6904d977c, 0x42020759489300942c9f827d6fa673501a24d58e3e0f3429fe104f0639e9cbb0, 0x5ea11a6a16dcd78d4df2b19241d91af265349394d7e296ab3380669cfcd138fc, 0x418d1e86d407b684f37fe5cdfe90f31cb052cc02cf8ea01e1847c6548d226eb1, 0x6e036cff2f23a53aab8ccae076c9cb4dad7d6166d740b3641a36b3b2ccf080b, 0x4886dd20cdf38467810d5ad965d844596013e6ca50a7c67e25994b4deb94c8a7, 0x5caad08fce69defa99d595ebc7422788607c3da5925e86e7cc0c8fea231025b7, 0x533fab1f9b24c9e5adcb95ad4871c542bcc15cc6418c586e29c8248730377d5a, 0x2a799e52277c907f0645ca81c98b235c7d9e4c395434837831efe2744f345f73, 0x70db94f0cdd32b491165da063eb4ec5a7782867279e57bf5bbf35547561b785b, 0x19408f60b4c2ac551666a89f9ecf2b7c06213fbf9cec278647c4f437c289dae3, 0x2b68a148f6109dd32267af7f18e8219e1484b27c625e7d1468bfa747a688d6bf, 0x2c172032bb6612f66a5ec9d1b846a49b8d1f34333dd93e36aa45712a7f9d0e28, 0x4f1b856385c75d2994d8990b9fb03e4c0deb71f6388995e71ffe325819a81960, 0x3b52c0355d15dc67f1be36253b154b18ff37a4d18563470957cb20cf5ae9552e, 0x5669dde5e7e85e4545cde1d1443892b92c37e05db58d2f563e2cc1412886ab59, 0x6d0fcf5e4f04273f6ce3e98941fbab0da12b9def6633bab1edaa1565d712f730, 0x531f2e671d8e215eed55004c9b80b75448be7119f2659adbc134e0507a04a785, 0x104c13cdd55805ae5be3fd381ab34bb35ad96f4f0898a49c6480c501bdaff981, 0x612a9066e6c2531f711f2fb5576a2ebb874991833f879d8eb026e3ea0f8036fa, 0x346ef67625cce5cfe80717461f96b3151397746a1bfbe8e9f312dd7ecf874a09, 0xb2f52d6f7b52446804cb4c8b00fe06d1371d3289be2518db9abdaae88ff449c, 0x28eaf7dfc8973ac9a89c5d7fb0f8b7d4d2d086d311f56c3db28218dd75f974d9, 0xc4c6086902eef31f9ff32e3f0d73bada19ce86ddc1b290e5124b6d1ff6d97fb, 0x112e31345b422677416c4db73ea9a8bf39a759152fa93e8ea39a996c73adb26d, 0x53aba3f9e77af6f4ed549a46469b7c82b43e3c44f2fd6d671f668e6297718fe5, 0x2ffb09e0ddf5e238b8eb30b2d50fe9de96c6ce531ba53d0a29e7c2233ae186dc, 0x490edd8a0c0f00cb2738c465bf853bfa4792ff1444f5ff27c674cbe0b672baab, 0x1037cfecaf42a9fe935a75cc4c1b8eefb38efbe223242e8816ed329675a756d2, 0x3150f35d04744a32bb2750eace0c8157685465908e311a58dfd99a4aea1a486e, 0x59b2c4b91d848c36a37943c72c5bd165bc843d1f94f66e7452710de859680624, 0x6d7a75e64371ccda8134b6edba08af96e43d1b5357ad7ac72c6ac48fdb2148b5, 0x5ab98e2c23e1b03df711f6677fbd40116daa3ef0ca2c5495d68649acc125eaed, 0x3525106a8386e5a76eebf2c8ff0c04cf12afbe2cabd13f24269548b0acd2eb16, 0x1dfbd1dd27fc70466332f2a16b4f8a2be5262dfbccaf450c7ef227e91d5a1f8, 0x28878ba14ff539329e640e71c3a5b7e704a4c1a398aa7dc64f136413ebc44325, 0x50946477865ff8032c564586fe44b311742b1dca465ef8acf2f9f99954d783ad, 0x2525bb9c36a718d6d61951dca1b21b7997e56abe9dcb6c984ed042f5cfb5b004, 0xf6ef96c23a9442c669fd10f086f1189a1daca775ff4e1550c0f1f1b54409e09, 0x5afe6abd2f4d51940b4ee689d51d4ddbbc27a2d49932afb461f61f9148ff94c1, 0x6a014f80502b5dc7e34a349dbb6ce4c4c1dde754a7280908b42fd57be64b2112, 0x4d1de27058a1b576de2a20deaffbf9aa36986341bee6eba6979495b4a49ea101, 0x51ab30b95ea83d098b484871286270b1d35b452429acc8e69af484bad3352f8b, 0x5bdf4d467fcdeb0d4c28a171c8ea7109c1be6b15219e71fcd9cbda2c63b39ac6, 0x9234b4af44030a80ca0f612bdfc265a9b86208518c338ca3d932dfcf9fbcd25, 0x3485f4561ccfcf84b11d645861d4a75f0aeb57e48b6c89e3e444c59d08f70961, 0x3fcb3705b3db748201b29c821c25389eb64936c88fc065079ba3745575397e7a, 0x347f549ce4aed42a39c0336305423e6fb80cd1224cc75449105c561d2680e033, 0x68c25b442c9ea51c70ce8c46504b5a42132978e75c9a48af1438114250512b00, 0x2a726c3b01170012fc9656ffee32e3a12fe0eb29f081e6ec583f1d729c25ca56, 0x17cbaae8fa5aeee02a6e98abe4fe7ddcf183b4f517e5dacf9259a25792ea8c58, 0x1b124438be77aa0b61eb43bf99d2b1ffb0e4e851738f0d796026adb04b287f33, 0x715837911ba8e0b575de1656af06d896c453b883f99b19bc1dfc283a3529da05, 0x4165d281ec5e58f87eb13705b75bce21cba455cf320d47bce9f4a91ab787d0c6, 0x1c93bc789498de8c5a7bc1330cb7a795fbc97d360da749ed60056dcb4a4695de, 0x72c0e987e3c1e824489feeb6a3cd119cae3eacb5d50f126f1a755911c2270305, 0x357c721cb57001109ce1eec54c76b4468b30a8a37b977338e3d422eb49cf8347, 0x36929f5a15c26c92730ac7aed79f86628fb0f70f29de651fd1025f3d4e53d59b, 0x622d59a8385b9e5621217d861aff3b14d001b2941df948c80181a49c3bc2b8ff, 0x492d5e51d6171a2b98398cb410c53c98297a3fd0b790d079b1fd36bd1397a14d, 0x2f0d11f0e1aa4421c2ec5906a882fda2d7d32d82a70d21796e0c20a90ab50cd6, 0x2446fe6cfd19a18b1bd50c7a15bf660fcca967eb424c1f257fc4e996f0180f9a, 0x1f86cb838e334b5e4cb9358cfe9525a699ca72cfb4d9a4d9daaea9e2d1ba5535, 0x3ffa9ba71fe5b6d436aa53a0960e07bbd242825fb9e15fcaecde8dbc3884e43f, 0xdd27564f76831dc58c8ea91fe8f28a15f7e7b2723acb3e6bf6a87ac42c87583, 0x1b76cf4fc11401c22781201257302eb262ad31756a479088116f5389cb80b23e, 0x3d6913ce427affba5b4275ef15b9d83a5526eac89141681513c0d9df1282fff5, 0x4379905baee8d151f34c0ba5b646164627fa364c13fab4a3b75e3ca4e2af5f36, 0x60a8da48b4800deeb1e3c63a328ea772707a5c43e62dc34de607719b431ace22, 0x148a56eef6d82b49a860060388e6193d77694fd109fae5c00c8be550a49bfb1a, 0x57e2439c8ed9c3378bcbf92925661607f30e20e19ff86516cd8f00c197e9073, 0x3d97ab62ae9bbf8aff865904bd3bb7539e41421c7f73cef2cee16d09a7531fd4, 0x5950d80306b28e1ed73d70d123683640636521c767fb7666d135282eebf96a1d, 0x530d93043679dda7651167030d585353c986f00241736bda6b515d49fb84645f, 0x35f0320f3771a94fdfd90c6d2d93b755ce3d42de0d17cf87c556a27a71a811b0, 0x6059c89ccadf2e92edf4d322e29fd5822587aaf4fb235096a8dbb2e2c0e51c70, 0x20dda8fb690130c9695aeb0605cfe98fb396fbff83ff0ca7e0343149df395cd1, 0x56561e653d814d81a39d32e679ce3d2b30a1ead40ebdab263a14d95bea1e282c, 0x263af60529936f32de5d2f91839145e52a148c870a46e77dd73594bf75ab65ea, 0x395222b482728f602c6177359b5c5d86690447fa3418025e0ce6705be93866c1, 0x1014bea00f6e30c498bf2f92de9ef6241b057946f0cbb2fca3aff1c02bc865af, 0x5aa1867ba8f6c3d0c553e8ca52ca8a89b5f109ec1eab7ca4010272b5d3395d98, 0x63f615855d2a8f8d5e0cb91bb12b62db2cd0cdde7769731e0aaacb688336b4a3, 0x2b95c33c02083a8da59c6133d9c6d9b2abe5389c4305fbddeaf9ce664937c586, 0x48ea1185dc5fa2ff989ef9125295273fd33b74a971d06e4d661812624a86a457, 0x40dc6227cb8e3686e47faeb8ef199d6b2eb50d3a0d02f0634ca853274ab314e9, 0x47dec1af2ac6af34fc5cdacbe8fb87579193e2531e796ed3a541a1889569678d, 0x117f045e49d87bc2453ce85b91b3ba0bfe828a51538a9917a100d5397f9af0ab, 0x369aeb7547b7193a845020d593a27d76bd13221f72f30193ce0ea70fbfc49da1, 0x6718c2c050ebc406d1131d334a29fe18b1ee9c199bf2c605e57f0910f7b0df23, 0x1bba996b44c6439a3f47a475660ac51aba08d05537d9d0715b5c00e77747afcc, 0x56b37174bd9eee58b8ddff9fcdee9343fba149e05c01cca812911da37c49e965, 0x47614cb8103b08cadef237a9b90291ff8773c1557ae915dac12826dc25d101ea, 0x222cb4bd7b335450e01577d18b743388363a112c65f776e9f77aadcb0d914249, 0x14b56c87e704ae78e9af3c184d116aacd3c5c48c29b97c1d56dc79910fa2ac12, 0x3b8723ef1d5e4081300869e61e2a7d31402966776c5330ffa2750fbcf88e9b64, 0x578e16aab25d74813c4ed37bd0a68ab3437ab64726a3b79733ae744979f81d5a, 0x1a215675b8ab29906ccae0af977021093121f0c375869c85bb05d3da2b72f8ee, 0xd1ab1d1de825fcc4ebbdcf0e8e5b70e067fd032982430a78edd47ef602215d4, 0x64121d96bb74686bedcca16af7a20b11c33bd22c9937ec1bfe9b04b659e9cda2, 0x5af15d5e63a1451d905ccdcd3bd557d76382f3dbbd0ac191ffd503a813d95506, 0x1084c6f76951506647a060491dc3463419e4cb486699f273f9f1d0fcdddd9573, 0x3a6cf44275515902a37e2b44a319e5729ef161493af8cd34ccd04500e82a699c, 0x58cd67ccb61496e7f2c86419e778b2cf03ce4e3e181114f93f01d34f6336aa8f, 0x23ee100d28c8bf1bee673da0516a8dd1717fb7109405ff038e683e40544764f3, 0x37f29b0f3dfbafdbb0d0331872222c35570a9aadf8aee685c87f6d9c716db8ad, 0x1edf993d6c8946728c7021eaa6f451379b13e7ccb2676d04c1abb8c9e90199b4, 0x5fc7abfb2f607b6c6af005d997e706345af5fd6f3cd647880f554354974507e5, 0x361de17ce32387a4b6d0919508dbbde5203cdcc3ff2549e217b3c51bd3b060dd, 0x6a243e2424ccb759bd8190a334e65ceb159da207442d66e5776f4678d6a77b10, 0x69d2956ed5915b775fe38536e6d458727f6f2149b8134f3b8e975e9640bf2e5e, 0x280a127ed2953b81e239bf632be2f9f5e6c9e80af12afc6b9da385e1dd6a5b09, 0x2cc00bec09ce11776c7246dd591ed590329c2d4e6f06a0734bae73beb87a6292, 0x43094cbddb56ede450e6daf9f453178fe8c508c6c5153b704cabd4b2ccf9cd1c, 0x2399d23e504c4fa79334b6c3d9a562ed2322c83203e99aeffa041e1b5ee77d6f, 0x20305921b0f2d2f72e81d65c3b70882b5d6057136552c3bc17ea07aac7ee68f0, 0x198778e207688bf3a19c9fc19a525f1f86715d17ec52451276eb06237a465cf7, 0xdb022592127bc49ef638358ef49de927c62c44e54bb7c787b6c1c55d7f35c89, 0xae8d79dae2d64cd950cb5e9c73b3511be01304a894d04b60d681e1ef41f9da5, 0x564d9fcf61589d312735aa8a179a5bd216bbc348b4b99bc5fe7ba7d471289613, 0x1d2831ea22e05f56855b81f23f8ff70c6ef671b802dff6d2fa7859505775204, 0x48e80008594a9e4e303ac6ea670cc04743d53719b80b20742d41c4b4c614866a, 0x702f917fba41fab38d663e0b7f4636eff753e6d559463ed8dbe9cfedcb21da2a, 0x81ba11c9e88f80fa5b266c9921cf36720d89ced50386c4e0caad0053a26ac6, 0x14eedfefe917641236b522a950ad7137684a37ed0cb58d8c9e99fead656c0e95, 0x1e6001b2651053dae5745fae5b050cf3237db319c69958d4d6835ce3196f0b27, 0x18c10361e8cf1cd0a22d73046ab9b39be0572b0d1c742efdda316b33da99ef0a, 0x6484b998689d7a3237c090007a1e63cb08711e7e1a73ad23dd68c2da96c40c2f, 0x69f2c952a2e75dd5a259801f8f480ea1d29f7a6087301130ebcbdbb4d4f65e70, 0x27e256999e8b7af0bfab9e26d34185c84c73334045956b03581380b93757f6b5, 0x1f48e907be911a6b8ea1375f3c8d6241fdedcddcd23c78099c3b7a35a8ac7908, 0x1e64c3a2743ea281042e39b3ad8a72756b0c652745b25f871922450b8dac3cd7, 0x3db5d5918067d28a46e9e7a939721ea40bf4625d3aad5c781cb7ad297bac5a41, 0x351442b4370341ad8feb7076a511c3ce649475e334a5399651661069b1301d16, 0x2feb354543544f1a7fcc38cf5415c5af5481c7efe4ec1bf981ca8bfceb4d3a99, 0x4dca68d59767a19454b19f38faac3ac82830d31b5622c0ca2f4995cc990de41c, 0x4b0d9f74e0c53256dd195a9279f4405eeea01b8e5d95556fce635dbad670e2f8, 0x52e715d8317c17dc100b71851967becc1bf61197cfa5aeb34f08b2ef83cd3e48, 0x28e54fd28f9eeeed3a0184e559911d67d2d72724349a13b51cd47f6dfb8d5842, 0x34be39ed30e28886fb417af077994b3e767d22f4d01d5ad7819e3cb85bb66f, 0x2173bef8f29e4a9f3eca37349c643c21305f253e6562885a6423100e2394bdca, 0x5ae4e6e867ef961a4bbaea24ce26dd19380d7c2563193b144b6bcf04e3d99806, 0x575b5dc285ed1b64aad6d294ec5591180cc51b0da64b8979b28332784ea78f79, 0x344c21cf9a2abc592c9e96bc7f510c2f196f0d2658993bb3c588a7419c22aef8, 0x526a0bfd007b835fe37099baa60fe47e0ac38384c71f38b3483019e173e79ed3, 0x4f72e79f22a7da91c20e94d58ab24092aae2449313bb8e01bd35ce3b6c752cf3, 0x1cdb1127e52bbd205b3b61d29753947bf61757b11f71ab77814012789c980638, 0x5e62e35665d5762cd21723ff5b69b2083e43ea7f8ad83eb8ebf2c2f006670dd6, 0x5057b83249de644ea48cc58f7a811b5e6013398c78ac84fdd21242dbd157fe43, 0xe14a8b50f342964c7b83362b04173af1f8a51e7043880df65da5ac184ffcb2c, 0x4ca070ad84a4aa56f617445a60ecb8ac21d5ba9d726bcfe8b0fc8f0623a2479, 0x2f416e2edb944cb63c26a4d0e2785d915f4740e6496c5cdd8aa7b9a57881350d, 0x577fc8ad71c18f1a8150c9811ed9d107faa0213ea838e008cab498ac1c3135c6, 0x4dd82a8184affd9d3ad5db4d6757a88e2160c0faf8e6886101c63fd5d34c54af, 0x66d39b10ab30021f45960c3c5a1d64c429d187eb804e337588f85d12b45cfa65, 0x6d3bff5b637ed97f9546eaa3f95bcd2a75fd101a463d1fd545abad8d83f6a3bc, 0x68d3d6a41bd47cf9c29c900e2d4380cc1f4ddc3dba45c6a449e4b2ef81385e6, 0x1487437f22be7299649c10dc3efbfba4db763d4d16cd7884221566d64071c886, 0x1ef40c19cf467101c9e94435276cba90e0efab87adeb5f7044d6e60266ff88d, 0x1988734bb876078f898959a141e17077240bcb75b16866b4170a230c8e68291, 0x1c58002e50dd1325b3780e8e6b88cc28fe975748e86e4352ad1799c1d8cfea29, 0x1e3290b20a46a52edbbf6716660749f6c60a70873925d89514b1de70ef33da93, 0x31eb8fe0f3dc7a51b7f8d1bd224434edc9adcd715a1410e0d4338ff21ac5b65, 0xaf3af3c5ee6ad6223f5bdf3189622076064e6329ad8a9bbcd898c31fb108aa5, 0x395d08fb7097989b4b704ed6a070e429e6aa239f77d5189b3a405c04eb604a23, 0x1a0b5a9143b5855b20a2505dc7fc8ab46aee136c47750056d4c7917e52c60174, 0x59d9316e90ea389b37eaff87715855c24880742e6e97ef4c0e4d4cf57d607d56, 0x697b457dde2106bc98ce6c530bd6e16e0499a357329d8f15e1c6e23be8b31471, 0x280f2d50217e9cf5aca0040b5e473945bdcb506747df7c8f5e8d76825b2c7de6, 0x300f0906f5f96a2ca45c51d32f7729249da075c434abd0b8d6bd58c1daeadceb, 0x1fa107bf739114e45fc951ec5ce360785d8ca4425b85e829eb9a637c8ba755a0, 0x69e4ccfd86cb97801eb40a426716d0c00a8a90ae2a446b9d75a80e0dac1dede7, 0x102aae2df6aca7d4f80efb6c5f1d40af63d1d907d692ce2c23e545f77d1618e8, 0x85146812237b4cf3867024485d5d5d870677df1f6bb6a7f06afd31f77a8450e, 0x2dd7d0030af848319f9df06d19aa89ed0a9275fcec7425915113eb253f7cf985, 0x5b060c8f7dd78de43d4cc4a0c0b0d240c5fd72a173cce53704d890a92ac443e6, 0x2792fffcdf267473a871c3406006a6a00a554a95ac8c9dc52fbc609550e26cb7, 0x4e61bddd61b5f469ff4134619ac675db62895b9bee5257d2b3bde2fafdf75d01, 0x2e225166b2ddba5769e19bb5f1912d16538a4b5ad472f831c0ef8b716914401, 0x6660659cfdc88ecdf845015d228aa79d0e7fe3770dfd28309944d350912a4a36],
    M = [0x28e8b9bd05b214da35df0e54417dccc3616a712a706504111e0911fd41f17d5c, 0x5c406fdd7939a237fe2af51d235a5015e57da304f01a735c162ff2b2e4fd837c, 0x141de77beab7710e352e9d2d64b77db293ac3c705e1ccc2911ef0db7d6460b7b, 0x6be4845d260318627b8948b6fefaa8b33cf2d9fc6139cc1d352eb1a75d369178, 0x4e3337cd09c0676abfd36df1c09d2351f8a19105a633b9f9a67d96e8e5d6db50, 0x454b507e44bf2ef0e3ed0f04ddeafa421c0fb1e508f7a832507549e7aece3519, 0x250880dc94b7c9439f65a70a972c1883d7fcf7a50e016133b11374a87136017d, 0x2a0c534c0a525691b09babb9172331e2c6a2bc3f900e3f2ef71bd0fde9640d1f, 0x6c585c51e6538bfefa847b28b5ae31cfb931f23fee739d24804f4d997ffca717, 0x4426fd9efed620443cfaced67eed9a27e6dc15e76c381dc27578309c6cb4a3c8, 0xc03525679f4620bdee0f1ada374df641f7a977864d9fda28e7708060086b462, 0x297b43b54123c2b5d91e2a281dd1b7ca69ca06b53232a5799446c7d910179a19, 0x4136c280d056b3ef3b9d05ed80eb0b4705cc573ce32463bf1080f75b4fd5c672, 0x175691690730cea5720dd4e71b7360f4d34a41b8fc89e35cfc6c75f139dd2c1b, 0x335398328f6f05adc34e2682395961638c57810c6d97c364b917c6af27bc3f45, 0x1c2f4819ef5fa0b649845b41680060e172ae72ea113196240aa59ca72afa983b, 0x3b1034cbd293b18e050f1505397c7e07edd92e8e172dc4d046e79e0993e939c3, 0x50077b15109ca5a8e4aee57e0e06439435bb4d7cef8ab99669cc1048b5da3937, 0x1a2c6cb0b224a295ba835609923a513ad015a991d22a1f831709164844336dd1, 0x20f6e96faeb485833136b8ff419e76b66f81a0c68a7c08ca9bb6a577794e6f66, 0x2c4223566c4e1f1bb0128f80fbf33568951c8fca185260a2200eb9eda698be22, 0x1bfac48f315b87f1c1e9bea8e30321a76a3af21bf96eae11cce63c9e1caa314c, 0x5195a88b791ea807b0b55ea2cc43f23f24dcc2dad29c682b1d2358ba5a601125, 0x411c74881cfe09d5fad6fd0385b4023d3ba7a13f27c325c293f7144173557d4f, 0x2f557049be3b544e529db0c3580abffbf808ed5ce6e52d00c99e37e25dc7fde2, 0x5cf6a90b5ffb6f50f33996ee0a1df349575c32fc14aae0725898dc947e6b9092, 0x30d3ee8708d2fc1ce1bbcb1b7ea4a1f3aa7d66073fccdac47e047164f9d79308, 0xc19c71ccaa5f1b56d0397ecd8e8ebcbf2c8e82028adbdd215eff464025bc94b, 0x34f6f9fadaf23a263a7524c9d6166d21ee37df1741414514307b094837211979, 0x5369c3164e063c7d853a43f1a97e0f9fe2046755573ae00fd44f9fcfcbbd8d2f, 0x321b3e16821c7329e2b2b8c73282e35b119ea072a0c7e7aea57164c769f35a30, 0x41e1c8ae95c03d8efdbb4a941bd0a3696f0333baabdc8694745ebd099f65348a, 0x3ee4fc2e03a88fbe46ffbc4aa4d5e4689a0fdba8743a161ae246f403eaa000f3, 0x4c83a5eb36bb2abd507a12daa185c80e8969ffcc5a9d2fa12d0c35903eb6361c, 0x6028760c3ee3aaa7796e452c6037276ec6ade27c640b8410b1a8f188cd0b9e46, 0x35d35d81949d8e08b542b97dbc71b8bd59481378c99fea86133f35aea9e89246]).* from "../poseidon"
}
