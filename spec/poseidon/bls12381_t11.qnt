// generated by tools/gen_poseidon.py
module bls12381_t11 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 11, RP = 66, IDX = 0,
    C = [0x6a6d398219bfd835b452a357ef13be5da9349154430eac5f77390dd7f192622e, 0x1e4dd0bfb797e8b3f378a666d85f899fce079a999a4fe2b7dbb9b7b7fd541379, 0x3693d25dcaf16be697c9f33a8d74083a041b553d7b49d8064cc819f5cd91e566, 0x34292ff9bfbbf50af886f6fe75fea2284ab0acc98ce1e4e73f7c91ab0f9c7882, 0x1230a7dfb6d6ebce4623ba893bc4a2c90b4bf875ad923f22c1e6bd974f9264d3, 0x66363b3e1fd719b8c2f1e46862f84e0bd73c92adebeb91a9854648d1e5d235ce, 0x4529826677ea85bd16bfc5f109060847e05722ca5b6573a1c473274dde60afa, 0x4c55897888e46dcdc19484f8f325882e19bd7161974286753e43487aa2cf6473, 0x5a825dd175bc75239b5664c0d402a0365ea722565629fc8774e4e2ca3bf6d94, 0x43a61c04de2cf7c850cac478b20d4907fbdd780f8e3dd1b5a80230e44856e603, 0x1839885568df20a0ea9005da607bcfc2a2211da42d2f850aae0b58bddb3951, 0x62ab4435ea3f7e8c8625998e25d191f1a5241a2fb5bb1533f4e118be75cdb282, 0x18e36ca6f977953983ab8d8d446eacb38c77db7b21bf581da16e0632541d6309, 0x34ef5bef1bddfd39d2fe6139d3ac51b2be53ee9cd83de9231d83b2b8dfba7ac8, 0x46818ea2aaf9fcfe8c9b6ddd3660e0d16abde407454bf29480a6e2af755595af, 0x6c10fb705aa5f9a24a5d7ffbc4939d2a1e8ea1e8521531f377cf9c11d39ed213, 0x1e615ce44a749eb6047919cfe90582e1ea32120138c33d3b3bf8c4a80feab44b, 0x5f23bbce3cb3feab86190718138c2bedd0977283b550c9d0a00551039dbb954e, 0x6f22c5d184d4d677c89cb785e4d2515074f418859badcc9b48d8f5fda6fa98d5, 0x8095c58c9c627a18927445973b17c667377023b621f35d948bcb0853ca79910, 0x52ffd5d7710df2766fe9cd195a8333163e0c9e8110121c82b03682b97fdb7f5a, 0x1d081d753ce4778b8eb8881f9ef0de8f53d90629de2a1644188ea5c42d2369f9, 0x56b565ce6b243e8507d13da30156dc8b23794cbc250dc583f0bb846c6bc3934, 0x5f278b713990776ede12c855b5d12b5d4c8df6358502b4c27d33957dd3789f4f, 0x4649d6243ed894ea16cf00d82ddac4a5102c8a8444d2361e6ea74381a90359aa, 0x1bb0b306bd62a3b1621fce55f92e31d1f8e2b5c5b4ab3bf3f7be63eb1863e139, 0x19e5ed84269291dcda86b551e63b322a3d94cd618682bfc86487c05b19ecbca8, 0x4a50f0b813e1bdfe4e6a77c3f8afcfb7990d1f45679c62ba849ada8fb457530c, 0x1d0b0a84fe65b564d8a9c858afd6ab0bf8cf2174ef9dc9e103bf2941d5f4d1e, 0xf66cb209b78b38fe0bdb8c53cba1b753d162f015d8c2b732b656e6ab51f228, 0x47dae921818ad72aa1796b83c3e011203d73e980d9a92603644b385551d82d4, 0x1a79c2e8f698d0318a9cbea3c14af9ba0a7a88fe2612877a905ac4ec607abdd7, 0x208f6594e2bb347aff27bc230c25f8047a86c6aa8cea9e04647672dfb16b0f02, 0x6b5b4a15b63d4f034a8cdeb0cef94ac51bf3d05f4c2494a6dd37780b4389df39, 0x2592ec430576852da6e17b33a7c39e7bbcb11a0cc0320efb317ec0eceb88b5fd, 0x3f12ab929325666e969bdfd86476e30ecbe9f83fa641d72ea9c3eb0f05a8e826, 0xfdbc4c5ee49410039970c22e64448c9d09fd72fff07a7f134845f6a38745f08, 0x6585498a9f932f09d4752b5389de4000f59de9a68edd5d49ec06e02b0d602b21, 0x53d7bff17fad46d2557e06afeb53cc9743cf664b4f5b722c3ea5443c5297bdfb, 0x58a0c509fc969af6d90282e7f1267c4911cbebcd1b03e9cb60ea35a2a7b6cb0, 0x6ac42ce0c3b0b267a1db5e13762b0a8f973d632ce3ced270686d3e116daae16e, 0x6ada2e0d1ecfbb960e112a9397207f498298736ea1555cabf04a368be45f079e, 0x76f47ac1e4ce720f9e0b2b17952e64f537972f21960f009c31f345e6fed1fb0, 0x15bcd72a2a861f6e7af0700de7502e37ec29292ef9b8986ff06f2f799033a29, 0x5cc6be5c9c274994bc6dc97939290840d196f6d068b58c5db2e31a8af5253f15, 0x3a51fcdf2ec8aced97f92e7e4483b197661af2931c80ea5611b39e179a812c00, 0x198b8ea2ee3e24afe3e55801a2f463935a3039dd236a55c2d7ea4c0465fedbdc, 0x3ccc7833a9595045587fa71095c69583760e88af740fc2f72a3001cd9604a89b, 0x553e17b6e52aeab4bcc294d9e3104e5d8234759e6488172e5c5942158c159733, 0x1b56001ba9a051693771673607c4530090c2a7078ef840786bcfd8e7e43050e8, 0x1f555b6ef237e0246656bcab67dd21a0cbac098b0b07817c2f6d74ae6415f34f, 0x4c98cda823fe621a852f01cb698aacb7fe2fc83fa92fbc7704954accc03dc842, 0x2d8b7be09168351c6eeff4ef831c46f48c86355a38daef571392932ecbee9643, 0x5c2f1ea4b7437d3112808a1d24aaea4bd8365a385c764c955151450d32e388e0, 0x4ed4b0941120d7f5c7f26062c5ff506a26478ecae7410605ce4ddb2acc561c5e, 0x698d39860b3e57d385469531fd095196774bb1f97f3babdc0d9853b1823dcf00, 0x592a183c3a89e0f1a4d6ab5c2ce9e06f596959d8eb5bac34f53f560d889718cb, 0x32e2fff7a686df17c7b78e515090dfedf18114a9fb05d3850013bf2c533ca095, 0x64e241a87535cb291f1efc5b38ee943511813ddeafc47ac959dceb7b1dd1ec64, 0x1e50ac24b10edad969b9faea074f84ecbfc4e1e9c60b626a807d221b22b05f3e, 0x1448ad4781e7b691225ceaddf5f463388324c141b3bb25815c85177074d80571, 0x4a34d2dfc4307a33a09f6dbc4a84f41926879f608767de7e32237c43a0a517d4, 0x39b61c5b4cc87ceb9090638d6639735fac6c45aeb2667943c9d0335629ee428c, 0x4bd00d78ff5f8df82b6e5429e44113d098934076786a07a680bf2ac9d8f1d1bb, 0xc1b96a4894cb7e18cd09567fbb99dc56748c8f56b68daaf1f66b33296bf9f01, 0x1dacc35e464ad51bab130dfccfbef1d492d9d1bbd4b9f9ce46dedfd95d972323, 0x19136a9922fde930d96bc8eabc8e781b5f147f3677b836a2d8f2ead5d9d81533, 0x4f967125c4384f925b82ca2882aa2407e1cc18b8572f8db6654af5163b71a65e, 0x2bb386746573b3998477ee11efbbc7a4e6daba40b14ed8d8adebc5509d6062d6, 0x42d8f0dc8bc1100361e683040bdd89bf8d99ead318669b1f0c6780efafca67cd, 0x5a91cb2c8435ffa6f90988365bcbeede60a0b6a4a7b4a3159cd0cab86e711cf, 0x164e7269480cc3e22cd094f4b616dd59d5223c1e967f8b981c123553cdf395a9, 0x5191887d638567cba445ce57c1324f3dc4bb8af927c2d5bfb68802bd7274ffa1, 0x2b6ab1da283366a964289871607cc08c4f75e6991b2b71f5471cbc74140a2fee, 0x5a7d113836a54bfad11c236aa509bb76d092797676d9c43b418279fb9f71e48d, 0x54c3b6dea916bf3b518ac58729311007d0986239e72ee60f624f5f77add1363, 0x13b8a54b89fafe42fb9b8b6b15f7166bb8a2dcb8794b6ea17d76b8ad183f922b, 0x13c2f9c510e8e1c9f81f10b1138d03038bb30acd8bbe17984fa76cb0953ddc16, 0x3c88a8b21f089f2824613396eec84d50ad08d0f58c1aae4d4fa92b6f4711c5ce, 0x5f27af2368b2fed535a85b91ba347a3b520084fb03dc011dc47fa24f4aa6cdf1, 0x190dcbadbb26b5fc1da9904dd3b21b71cd61a98f968f0980b9d170470b3f5bf0, 0x1beca029302724055311ad28cb2a8c0848c94cdc1b5e8606e93b8734ac7ed0ba, 0x7117c480ff2a839cca266d314424def8b004c20806163f19df9b5c04681c8efd, 0x257692d43cec92aeb5e50f038db5a333085fa6d224a705aa67ce0890daa66b34, 0x6e2f4f3321a3715f749ef9d8b9a58e36b00b171cf6b21ca3fbf86e94750a1440, 0x147b85c581f2b62a82199cbc8566e1721114ab300660e965170e830589a9cf1c, 0x6d0976b29b3ecadeff85ee5aa7eca61251205dd738f7f7dee539d46063ccca6b, 0x495d607def2661f65d427ddff692bfcad8962d9676ef0e011ab3e0bd3471b3ed, 0x1abb65ca56d371964dff7d20c35a7eeff216e67ac4db937827dbdc661a16231a, 0x4f241227a7d946dc36f1fc76263473080a4b39eb325ea4edf24ffccd9b30d250, 0x5714c976c4ac04b6795c81cc396e93c116ad24f3f0ae22ba1c8a247e66c4ed41, 0x4c77a894ddddbc88c622645562ff88ef2ac3363d50041937f4d5f410670c56c0, 0x71d6c98425d8a65992de0a8130828212fdee1d40941ea56861af64e50beb9a9e, 0x2ebd1778971d6b54b1243d90761bc347f0033a33aa0cde01643c3f8ecdc85a68, 0x514c02cd78654f2f4508a196d7a6a8df593b2d65a648776186725f2248a745b1, 0x44136cca8e9640493edf83436aee34f545496c5b6fbdc7d55c87c9b64527836a, 0x18fb8fc45ba378752c124df7d29b81f3b8bb5b6b5a45f19c65366c3635b719b9, 0x57b82853163618dc6a62b91d579880f9f4ae787d1eac24d6e719629d0c2baa1d, 0x300a900a39f700b28d3464ab487fa2cc13f2672d45d90c3cf676af5fedbaa3c6, 0x2071a26103d85e9e9ebb8b84de27e2540b4e547d6616db87b94a625da2969830, 0x404b431e92715a71e138bcced9026700cd2c3e654508bbd3fb720e08465a83e7, 0x38f76267d666b2d5ac109ef2be006742cf08b11c4d9bb80e4e8b302b1dc8a042, 0x44dcc5ccebf892e1098ed58f22592c88c08e32388fe7ef2d35aa389ad9cd860, 0x6a6049fb3b649887e4f5e170fa94130fccf6967b83e8a21f0f5a9c6880b8bfa8, 0x557600ff79e0bcd2609ea9047afaca4f5a1973c966a057d50fdb2d3902867a1b, 0x90d9b2b3bc182708c0068facecd8f5cb7b4902d3a02df7981d4a39f6122a2d6, 0x46fbc45444cbe252bb44c9763d134344b9f5e9087488f868f140edc95adb088f, 0xb1e4f34ebd859143ddc5fa6709eeec6e81ab68cf1e5144097264fadbe59f44, 0xee1d19dd445032fe1d1ac506612f1332d1682e4a53531f0ea65e669391e3c3, 0x3d91c35c0942e80222e202335a61051a02aede06d725cae0c9c9ca36e483734a, 0x53ededaa29fa8eb00b4778bd14bb1943fa75e97840791c044f3bdee731633805, 0x21bbbba60d31d4dfa09249d7c32a7ce16513f6ca0ff2e5fa39d235fb9d7b0b41, 0xf962f89175ad447499d8661124e94bbadb87b7a0c56a3efd0e6ca37e3b8e0d6, 0x67e8afd563d1e0c6b9c4d4f62d9a0450de0428d28011aabb164d223a5c22f7a3, 0x1bc3a972b514512a14dce46992af6a2c66c8639f3962921041c36e07e94e4571, 0xff5fe80c549f6eaead0c7efc84c5b1bf157d6396543f42b2d12fe144d6076ad, 0x2deaec1b900ff1bc2f52b880aabe5eb08d325322658b7902318c50f69468d3aa, 0x73701114109b12972d7ebab95f1f033f0f7a3aaa0f038a385561a6e09f40b5b6, 0x605cff62b1c474b614bcd0a2eda46d23bc67125caa54c47a462601279098b22c, 0x36747c082064b9abc59ae856813216d04173688e03d12ed31d7e6c584b7e07c5, 0x66cfb9e7ff5933fbc6f1ab33e4f0c978e4b05396b2eca176ab04f6ab8e72e993, 0x598080b76a3b593d4e9e2b313929471d5d0b6e2c6171587a59b621ef5f8c9eb8, 0x39dd07a783b61de0f7b8c0b9232e5996b0d4f7a367b92f99642d26e8194f80c0, 0x4ebe619aa0ddc7cd6f1bdae704e079faf4f0170378c3871402c7ff2d9a958a6, 0xca8be00fa6cddbaab8d65528584a77b2f2a0d8aa1e3122c85a4b5acd2c4dd79, 0x3bb4b1c07395e0f21971009ff5293928573c31c4f18ff73958fc2580cc0e9b16, 0x4ea9058b279bc8097bdb58007c5be4c6dd7d735d5ed4220d859c490ff0114762, 0x1713bb6ccb12db448af03f172d7e373cb49d5d1f0c7046a2d2539b4fbf04519b, 0x55dc477e2cdbc474c5992e9e6b095b3a8d08895869941edd0811d622707d1460, 0x44d0031a57ec40311e36953a51df7319f626fc1bd48079a6774c3396ee363622, 0x225ee7ae91a153a9c7eaf72078fcd9fdad7f8e0ba486c5789fac3816c01b2a61, 0x3888662812e36c2e8396e846609f7f724594856aae920588cda53974dfe68224, 0x2e2187350d051fcf0d4e7dd087ef93a40b0c14f63b90f00dbe356db432d47e77, 0x10a3acac9c0a707393d55adb388b78efa507c67f039f867b7325b09e003c84b5, 0x682082d73dc02f5008254ff29cdec6bd224493e1170d3b8e94a97d5ea77fa378, 0x1c93ad27f93d834fb12ba4030b699dec0ff378f00c285a0008328658f15896d1, 0x24b17649fe9261a21fa8d504004dc6cf27a751a009423dd4908922b3775e8760, 0x15789a0869a47a4ea061e5f7de2b69e86c9529e4c2f51d1ea35410ba7172fc5a, 0x7c5a98664d6367cf7629094cff35d393d142a8cfb4a6cd196eb14b6555c9838, 0x1182d3a8a775eac940a7631909f8baae4222f88b1f5b2b4c6406aefa07fbabfb, 0x16953aea09b848b491edac0732eb3380f8e7dba97c4c8421272d395988266b49, 0x5bb91452b9894b78206c83b792ad3248c32bc0f25164f657beb32b70e7678056, 0x735c25fc19af848c908f35f7423b4df894ad480d8352dd09fe741f3925bf9f26, 0x2e178bf7fcdcf456e2c8af5d7cc498ab8e43895c35fcba1ff255bf00834b44e6, 0x4b30348b2b89bf7dc22bdf5ca4ce51d6577ae2828ec6d39e2967a92c30dddeb3, 0x39dc43c78507e2c61cefab86b20d051571597962d2c305a45079ee396564b735, 0x325ddb2b2266a0eae7eb1f19da9ab3b33615616d0db469f5f2ad2c5f696afc99, 0x8076d86746a8e1577ffbace90052f779cdf9834500236305c5817e10f723b62, 0x2fd265d275cf5e6171d24fd158bc9877ec788541212996de46c5c94abebe4e6, 0x5b8fa00472929934c9da625306c142bad95f1872124c5ffd3597fec55650a09e, 0x47cc8bb17312c498cdd054c6acd6dba79d805b8d555fac138bc701cdf8716f64, 0x407a4346a01cf375438781519e71554b2ccf3233c00bf2a17a5ca4002a48c489, 0x367f3ee212f5b4a9e013475f353aa3ef8a6def06e187a57530da944b8f559859, 0x3f45ed7808b4f20c837c471db44c42fdc7657b80412c817a9d8334f375824a46, 0x1269863f2df8b01064564ea713e0660e5761c4e53bc0c79c0ddd815439601b85, 0x808367a4f54d6a4c8105cb3366b0ae810b1caa4e043ae49dbe02a8183325d32, 0x32c0f3f0320f7da62bf5a7473a9c7585f9f6f8e8ecd5cbe5e8bbd88887951aba, 0x60534285807595d27406efe03af2490fe6d0e5ac138d290fb49117e6015db61b, 0x1f44a617be641f7e92de2337810a6db76472e3bad18b49e570f93d2e047ec1c9, 0x2a50a497c84186d2066d4f9c48a2b5ff2f123cee7e724e7e7e303be68012d33a, 0x66923d4adbc037f0d2cb1b1412e1d9574002138a1cb695c363a95684ffffeab, 0xd945788292c820189da4bb9cc31abc6134c74b22628a1663bb764f15b665b7, 0x637831b2f0006456461630f23129162fec15b4bd220db684c1d61de34dcedcba, 0x2645df12cc6183b6b49a31b13c52992cc5465850274dffe547aa4376e2e2ac5c, 0x41a9be089aebca7978d9454848479c06f512769f00d8d30043933314e11b08af, 0x5bb0b84692a29a00228bb6ab2b2940f1ebd8a066b6a8361b9b0f8f56476c25ea, 0x4710ce3e13e86cc1b3903e72bcaac5db668fd3d1de1ed947f3b66f0dedeef94a, 0x3f00b9ee534dd7c0b01bb542af2b6f4552f8f66093370fc599551e8496b6702d, 0x3f40a6b253fc41c5ddaba7bc0e8f153a97c7f6dd7f33ebe3babb1d6f455fc0c, 0x11ec0a0c02bad3d94e0e967a3db68c4abe5a9349df145d12093700e21fe5e4c6, 0x43436904364c6c8c42a2b62bfe7bc620fc7842b587bfabf45989c32b6449ea53, 0xff78fec816996dac26141f540598981cc667018bc4b9ddb3761c61650081a04, 0x73ac9a28889893edeb4e622664d2ac1c26d3fceb0a67b0ca79b16a2d1c59b49b, 0x4ef2e53612ec12e5c99a593c81447e071666bd166b72c101e0579e1b1faa56a5, 0x19df390d990d3e67e520ca7ab14a36a0c40f977af21f85c8ce02094a4d1b6fbc, 0x2c946d8cd28d9a913b9d22e42137a0f47c47360cfeb0bf30779157d92ad8ceba, 0x1aa3733ecc47d611f8f71cf610d777c552a048d553aa88b3a96b1f7f7c6cf60e, 0x10128e8cd411c324580f6dce9c66eadba75857b9e13019170c1444398689662d, 0x3d71d8884f0217b84970d0e08291a1afecfd2635e5b410fd65d6b83f513788a5, 0x78c2c3da7d3b780546ee8a387ce4f8eae6ee0651bb5867d8531f97a87f322c7, 0x42f0e3c5673392eadd4a01d127ab6a7d0bb61497acba1b249c5c485b8e1bca92, 0x644fdda63a3cef3693d5aad4e0bb67b463f20ea6eddee56a338b0b2c3defb920, 0x257f625b6c03b295706c4baeee653108693320a1fa94645071462fd16184fbaf, 0x6b9aedbf760775d2a98c805472283e66df9ac67787442ff7843256112795b030, 0x66424ef2e40c32fc542f17e8d78df6dabdc3112521de87692462a33b515147b4, 0x5310d3daa96c81f6173f8d659ec24ab555b904841b93e2a6e0af6c5d74e9d511, 0x668975d7971970aed899a34df3d69f577e9c8bb354777ff34cd2e38b6677903a, 0x57aaca930be2428a48e6a6fcb40b39204081c7035cb1c19d699ed8c7697d45c1, 0x1f50bf8707c18589fc4897a344d7833c4b0e6f886d0fb281ea5048f86afa7302, 0x3a2351f587c84b2682673d12a67596220c133e5d698e96551cc04da641423a0d, 0xc1064c1dd937addd629a293f8d0db4439638e3c179d865a5bb3fc6645e416d8, 0x552b5db8123fcc476e930560c7180a9f3e071e90c795d08684ef0401a12647cc, 0x5df47f37a70c315ea765b16d3676d5803d8ef34938b0a06eeef5f82359339a35, 0x18cc9a46686a609920f0f4c3339f88d2ba1028245834da5c48984062d9ba1d35, 0x59c7ba43d1872f9634631ec4a4ff8620da406d41927242965371c63a40c83562, 0x713937a3ff6bb305df3fdd38783229473343eead16e317351d76b75b64e0113d, 0x639d5b793f2867809c52b36c5cd8f6bedeb35ba9f7853c95588ba507e02efc19, 0x49d3040fcc68c4624a8457e94f4d24492e612deae99bf483fd92e667ab883425, 0x2531be36505fa75315ed0b6a4c67cf827825cc617ea1b842a96e66733458aae7, 0x2f965a6a21e4ba06298b1b4c234bec6628bd82ab95acb0740639c13abd7927ea, 0x42872b15591c01937ff07d1cb652145a09312e56d138d26c1d46b5f4630c5ee2, 0x73bd0af6daca6dc8feb423cd1d977ccd556780ee56a84974844361926ad49715, 0x8333959e847388eaccf666d877a76e08cd074e26fa1c460f1bf7c27902c57e9, 0x6720a2f4bd1d2c3e60db42c7a4a570a6e0a26d6411d64feb3a051d1a2f98e0c2, 0x3904412c949da74c7a16934649f50c6cc61e651e9acc466d8093ae3d155f0016, 0x644207e8bd5dcb446a3932661d0d93f5fe9b03ae1e0ae711689cb285a2e128d7, 0x3fe7465cf68360f9078cc1d8f5e469796f6fe9ced096b8b446c74ddd5fc969fe, 0x182b90449dfc88d06017369fd5945577cef16027fdecd2bc27dbeeca9f283c25, 0x1c0651872595244c7a061db770c471afd76b7ad4bf359c62d7724a6dc3c7003a, 0x731f12dc3ff5c387c24739ee25436194303a877c4c176144dc948f9d3b590554, 0x1347040d01a54f6b49843052d114208ce3ceeb6d2f22f0a608f773123c529cf3, 0x5d031e5518ce7ac47d17ca0902b29f9b4adf6569ad0b230c977d11f48d5d803a, 0x18028d306c3f30ce8e5f0e10fda83a302dc5ca2c86562c776c61797a32891264, 0x3b1bf6ec7d8eb2884754ed413f23304e389763cfeb991e133e1935fd9e2455f1, 0x420d4a49f699ce2861eba074efdc9fadd39eef4153a728c3bfe461b7bc745e7e, 0x21aed7145a88914072ee8f80389528ae0c80f4e76c13e40f1c668a5aa035859a, 0x68414d0dad216d7c296ac55a500822d1e6f9acd162bbcea96684f06fa74db70e, 0x11855169eaabba0c85ffeb9882d89d7ac00fe95d2847ccd86e76519905f4d9f6, 0x3efa1ae6b94c2d97a2a37837ae5f57d49f8b452eb2d226269188473d4b082144, 0x53b5beae5ccdef1db6fc5751cdf284ad84bfd657a847eee4ada400ccf24e8b63, 0xaa387b950d64ba2b166cb553e92d1a62a8d529fb274553255cfa788171117be, 0x24ee209b574068e9b53c38a5ff3af28de10955a7eb1cee86daa798031a6fca06, 0x129570c99b457e12168bdb6f0cc74c4a86cb7eec4a66d5f31b7bc2b7a6d2c101, 0x7141ef7cee555bd51b5f85a29af954f1c6f1354d35bedcc631bc6f0052b95e85, 0x4fb35b844a622afb0270867904219f6231d37b93727ee7a4038a0ab877e3cf07, 0x6dd5727c548fcf830f67642e1cd00151fdcf4a1e39935cfbe326dc351ad4a9e, 0x1b6409e9e893d62474daf81d8c3feb1d14da4f5bdaff6b887fc8ad96d2282bd6, 0x3035b9e3feed59fbdda7b3fce5daa86fce4a9bf0d3bb1f017a9b3723f07b8926, 0x39321f90b90ecce66a92c1d7b1b0044da57ded25e056aa4fc2f280e071e8db43, 0x6c6d3d220733442048a6f853bbbdb20421985892243ac8ef4f529e90835df341, 0x41e33a212c67e45373534b34923c848c92daa09f69a5bbf44ba44474e60cdef, 0x1a3a86bb1d7d45bf3a07792ff0eb6487b42f6ab9be944cc992e3d4c842dd8898, 0x37eb3f3e2e1a8ca9f4b86bb08231a0a4f4eec57865f05150cb76562fe60eccc6, 0x4b0a50748ad787c91fb774e03270b73724455bd291a76de356fd84ae949d0f7a, 0xf42589082e7f69c40e58e83613e826489e34b8a9f2e296cb0fd4118bf33e721, 0x397784e1f84c100dc8bb369644f6297e6825487314debc2f798ea81794478b8, 0x5af160046af9461e49ffadab62f285b2b6276b78e72a3f69ee1a67bd553015de, 0x14952bf026f597d24b859d03d92812951ce1026705fbbd6f5ac05bbe8d3165a8, 0x4c9ea640f3d20d377f8a4daa92a1218cab9a2d3db96aa427e0de1f627876e9a7, 0x1a60aca712f5d6c065e07af82835f168c49fe75172d216e101b8f9ad80ea1c91, 0x19fa940b9f6df0bcaecd636c85777e78c324663ff65c98dc40c13977c87bdd3b, 0x5bd04c51bc1482372fda8fa104995c45b0dd35c6c171f489f5a5c0c3e7c0d842, 0x72e4c4fc5b9dff8aeaf03d7ba1ddc8bea3effdcbd5ddaf9c73899b3bf81275cd, 0x212da010e7720498125adb642f32ce43faeb6cab37a79925e07c0c628d42f793, 0x684ff7aaa1bec8b59ec22e80d09af4b1f0f1e3c5ea1506e4324a29082cef986e, 0x484b8ac487b3a4bdbf1a98af6f6c95cd80019b89f6eb6bd3b03874da8efae2d9, 0x5ba36b7596bd1187a8222f8a30df830d43a2db9154e97e73865e54bb0120af2b, 0x51f78ddd5f8443a1d5b95c49fa4198e3e52951f6f77612f621b4e1e68d817f3b, 0x4db0ba3f4d14ae69738c765b2ea45929357af6589c23497c4ffe633e7de73737, 0x199f3ab45b290090406662b075054477cf3a16a623d76e080afa08d7b16365ca, 0x5587ca375735fc57877226a7d5f58fda5f836bfcbe0c5aa28e28dceae694c722, 0x6317eb421996e29431126b13fd6b79d4f12018958a63e5877eaa8390fd6fbed, 0x6a7ba71017b50b5112a4301bf656091f71e6567100f0b4d9f6ef3d48501f0f75, 0x567d77e2ec08fd82ddc044d1fe56fcbf6d483ad466bf52e543b57d811cdf459a, 0x173ec34f3a68c528006b3b0a4918cc51651569f6e15610b371f3167959188d07, 0x9821d132f1cae94c148c8a1a440384891d32abb5a86706795614081a4f256ce, 0x600a32c9f5a71a2ce89f3f01660eb066a8bc75ad30be21e60172af1301bbae81, 0x5926e73c4ee2dbc1fefe4fad5481e3ed987c49d8ae28f6c91e9a1d8075af5533, 0x2d5d9f315a331b31f168139fa935126310eba5204dc48d69be938c2128afa6e9, 0x7010d8a6c9a890d126241d64bd4f8c4b7dc2c9c9cdecc509a29b2ed219109a3b, 0x133cc60059578c19377a1ea2cf10b2025f25c8f1a277b923b2f66f194178928d, 0x65e5989fb0f8c575501d7162853f7704a6305324274af61b6a49c1a8da44d867, 0x72033fc3f2895ef245054520194366acb1a4fa89f383e11a1a8b1088daef0900, 0x248882f1d67d91830904b4ea425eae62953e2e98c8dabf0b95fc3103f223037, 0x9a77b03509b3055d9fdc7ccb5316365817a1351b9b677f21312c9714e15b98c, 0x438dea1bda1e237e5385ce87da18cdc1d846ff1bbd079f6ee4397b4f41f4f4ba, 0x1864c76a75ad5b3db01766dbe6ecb3064b21cfde5ada4ef005a74a3e829068c6, 0x4fe8b150e7f569e4fc90c4703d736c2eefdb92776af6b7ce3b197f06cb0a0e33, 0x4bb88be2b3b9cc650f9e2cc2a4d6ae1faeb8020e145d9599cb8bc2678c693822, 0x44590d80dbd244f263e341119346f669c5a525229d6b10c68aefa73e5e108f1c, 0x489d1a4aff65f589b805afb77a0c2b649efdba3cb32dcdb562fbea0c12fa23cc, 0x1d769b8c184fb3d10e95a002b65ff9127c1dbfd10b1d864cae1dd31220ce55f4, 0x17f790ccdda2215057e4ab10f093ee8c5f0e9b6d818e617e9555d9e6995c6400, 0x10aafbdd86d2b4f6017d3a6670bbed30b0dd6c002baa1e9e80f62d2837d648c7, 0x18801228e8d6696ac6b61b72cf73bc0d57e96d2f960b402ac35a81c34482e784, 0x63b252715547a42c05d71e4cb1df66506c96fd7b495af8e1355831c828715f3f, 0x4e596b7e10af5ef328ea01c873202e09d03f1e0a166a57904063c5c4447c1ab0, 0x3e09efcbe2b4d0ead87d1b0cee3d14c7c06bbe4420fd1c14b0458fb8811b8991, 0x3fed91702902cbee63636723e0b2474338d5faf51ab16d511eb4b7854d1c38f7, 0x673d78da7b7ad24778d79bb529c3e8df492e7e91f6da23b0f4c97a2dcbde712f, 0x1d8d17e7dbd329717b70da5626d98d1d5d6cd87f9bc18a9ae124970baedd3f2e, 0x37575f3530907d9735a5457589287cf0469d357c902c0ee02a9da365f7109330, 0x4586a5e9628394b37e881121cde479e25eb735f14a83b2aec06454434938d47e, 0x1f3325805e4875285ae704e9f352612cccf4d12003251ed777f3529b060e9e7f, 0x17aca72be5e2b688df6f2d1085d0a79ed7145e640a10b821f1e36048c90f7390, 0x71fb08247f2dd56f60326225400e7d6ca57ac4e2674e65aa391e420f4a0f25af, 0x3fa982478f45219d6c84023022ea0eddd0492e8c5f7d6a418b4b900cdc6bd969, 0x48b854f6c957dc63898c3f6804f7aff6a79d2025621a7c28debe88c7a6666a1f, 0x1f92a998c2af2e6242bc40ae50b7d4701e94bf49d137505f4a1ae8f56b46de32, 0x7289b1e1f7f82e7252ee88c9cc876ddf2d8eef576f109681fa7fffda5797eee7, 0x3096df272434526e494108b6f870878ba8ab72bfc36f81d3e774a95990831c57, 0x2c08fde0170d1852a705ac422e5b3a6dfe540df55ea5a92699cbe469205f60de, 0x585bed49b5c8ec6df8d1e97313f40df31e56f8e83aaa252b858832e5d859cf22, 0x43a972e56a8f5e0b7384099cc4a88497645497c5c8f6e6837e86cc85c0991803, 0x44634cd7f5fc94908272e83c5736e37c829985c08a4d84202e07fc53f7fb5c1d, 0x4591fc36202143b8d8e9d6498e4f73ffe9d82dd2f38d6865350e1f82f23c646b, 0x1894964ca14331b28339d30a44eae4ace2cd6ae7714b73df59c16f525658811e, 0xf58ff36934b019871e17ac59108669beff1577f869c63a9267430f2c8337c31, 0x2ef4c88399039de09bcb402bed016067d11e441d5b9903d7aae44b94360c7e79, 0x231d89ae6b3649a991dc09d189b029bdc8b282761a4d1949280f7ffa9f251297, 0x5a15be9ac47b8ce7b9527c8c7979efa4c404fd86a8640574aca4a111b3492cea, 0x47a21fb10a50ed759e44651b4fec6260b61e79f7eed6ed85ab0c2f456cbff23e, 0x109736d81aaa064f65dcd800ef2e0c108caaf47883a00940d64a78b1fe238c2c, 0x1d5be3bcc37c52506674a23c3e28feff3f212a4166b8e5ce46d5642e77fec7b0, 0x561ea2747923f55295c97da4a89b9a62e2eec6662533d00703291ee69952ec7a, 0x6231dda96a1d8079ff4623aafd45364f9698a02dbd8060956692a0c272b29768, 0x3ddeacf943eb6253b676ad4191e7c4173d3da6c6921023943a20eb94966875ee, 0x3fa7a2a69b1be7347cf14308979f0e98aded511288165a65886b107b60eafd92, 0xc416a7fba016f144123bbbdae23bbabeddfab805f2146d2c3ea321919134660, 0x5820e50531772da6da994a42cd4d4d13c6666839c8e2d1ce0bf0d656f4557a7a, 0x1c972ff4809adebf53e2405a963df6605c6ab44610e25121ef673b6f2a0628d4, 0x185a962f29428d46878c50ac4f04e2a63d1a3c23c2a371b549afcfe284ca02be, 0x59930760928dcbe4162d9c66578e67b74256c9376343c188f3d32e6baf21c61e, 0x39cdedfb842c18ef1adc51d3c15c4fafbbb146397c9c17cbc8d51d80c1adba24, 0x5f77b0d8609ed581b290b66eded7a753f9b66328916b229d8719014b58cca629, 0x159b2b458d99b12fff1a5cd1bbb5acb347831028a903c725a0d7ac4c8f142413, 0x4ab09570ec0121c74620aea2af9e81f1bd385c33bbb49f0f6d6ee22feb723719, 0x923115c9ab5d908af23d25f7889aff6ad1c1e9b88e7f9947d388b18cb2dc4c3, 0x31dadfb9017c4aff846bf88796e89c0bd66eea987dc43767e663ba6e2326682d, 0x53ec3c6c86949d33918b0a5083be7957a01a6cbb94a2a4ee7a13bfe745267c7e, 0x1c102c39410801bb24ef1e2adbe3f13f360589f3321560af3e4c76ad44d11045, 0x109d3ca90dba325c54bf5a4260cbc89dbf9f675bd63c0cccb793529d7894ed6d, 0x56446fbfd0416bf8c02a9b129cfe95322034c7b61b2029dddcf9bd6f017f2745, 0x567bec3c3660ca474c4c495f423b2d88a39b2d4b520b0dee0c41630a2d166e15, 0x6427625496fa9132d93f88aca62bb55282b0589459f4a1b5ae56b429a43df99d, 0x2ff60e7e775ca56bed568aef96f5d5d5e789003aaacd401c05ba0f1f0bf78935, 0x6467f14b0fce7264461cc3d8a4f3ceb5950387117c439cf10fa0bbab486e50ff, 0x2f5328cfa9d80682887ec0d00dcb4fd7aef05e7788fc3024e4c12f06ed31b406, 0x34cfc5d7553071021c290e9659d7d1be21ddeb0e50cdd66629721ea4f9e3765c, 0x2eb78f27326816022efa99a97b5d0e0bfb97d194295e04ff499d0543daa1dc3b, 0x632df0be9edc6684e39ecdaec9abb07297d65ae3c36775adb80b6dcbee5a27be, 0x7121015f2485588735d5ed0dee0ca4f81f7b2c08e0cb07c1f97525e3ff10b0cc, 0x27c505edb58a84c5bf2cb59f01453f548abeef2839ac5e27b004605178ecc53a, 0x2ef1739946abad477b86771e35051a9a298c651a67947929ad78360667ac3ed5, 0x4c6bd654fbdfe8991f7cbeadd67fb749dfc88f6a07fb6f83a63e7e9f59ac985f, 0x6aae1e46daaf1d1dc46bf437a05abfdba4b3b5bea53514974bd0d69449a31c67, 0x51532ad41815b94d58a7b42a1387699452845282f48d8e3d5e56697f86739180, 0x143c8f0a170ffd9865d40b2ee63d3a7b8602260f4b878e1bdca0ae430165403b, 0x82bb4d4b6c446bba36e9a36c1cfdd6546a081cf887346b293d9b565c6fa8dc7, 0x152c0be5bfc60112d502625e2cb1314137b3b33a5a0fa2210400be8aa7bd8307, 0x311ba849d45e73e8405b2575638183929ac3313ceadf03d4346c53576e265774, 0x18a552e0f6dd301427b4ecc7b0086978b1c223930a29994ed1db6da2c7812b9e, 0x383cd56800f51b81486ebad4c4033a989c6a0d0f9f55d89027cb3095faeb298c, 0x517051c9b88ac5abb6b39a58c6634a98f9a9404bbc09f6ef86325851b92faf00, 0x315d5c6b926fb70052c858333b3ff0f7783fadbab04ec4bf25464c794881a592, 0x5d09fea0e34d289107c569a42a0804ff30abfdfb9fcb48c6a41be1a1dbf34179, 0x44aacea9764045cde9c5ab8740073951d6cf514aee43e8eb970323778b6b9122, 0x3329975f5996fe9a7ebb50270dbacc8edf2f66a6a5526b4a61926feee6a65e91, 0x3882f03e09abb45d7fa6d25d8e216b85df733fb8aa5832f0a7e75c7a35bdc222, 0x2b554c15419262002e201d0ecd63a97e69bd1938d1231f85c5faf0e07d3d405a, 0x227ba1820c22202d55460a4d80663edc414984ad13e4dd4cc36282d11a79388e, 0x30baba300a9671028f8c37299fb41f6f39e590853c10d11a5471d9738b4e6137, 0xce9cde305fc0d71f836f1c8ea5c04bf85593a998124b6afa024f6656bb802bd, 0x5418484cea020ac70084d6e12b5b91c8f08c5c566eb6bf814c4a5af07494739, 0x6e275fc0623aee359842d5afd92e6ced10ff2c47dd2394831d8a1908f0af5d2c, 0x3c6237a2c9bebdef77df273e530f5136a33a433bb506aa3a35875981933eeb8c, 0x13db7fdea877dba4979ec5f22ebeedffaf4b5a3ef91a855753da98c78a0dac06, 0x33e1500810dea87328772731b50beefc69124f8c89b5f4d753271aa4809c0420, 0x5f160ebace93935064014ead0025b08add8558c8c35d1074270cf9af19e55ae7, 0x53b53d93042acbc2a2699ad16952feac3acc2da2d05f0e9f7dd8b88610c0c0bb, 0x1941dd3fde50a35079295d51330cadb22178ce9b82249e25e7498480b45dd41e, 0x64f6c9839733a7f3ea7ce0ad9f85d7a5879580ede8bc228dc43a624b0550936b, 0x453ef9c23d10bc82d0b16929a79bb13754073bd61e583231a1a0a97fe3450ae3, 0x5a0d8436853c70973f961e3c96418d77b9d69edbb298c72199c890c2f94a63e7, 0x308c73f83abf1ce220706cadfdefdaf56903e4ea51ad0612e3de9fea6283da8c, 0x44ceb7961c04ef4cdd1ade81840eb20d02213402e37ddde5ef81876ff9823c4d, 0x2d269dca390ecc63c5ad4017acc66e32b3e178af46bfb1e6b9b573662dbab1c8, 0x461d75697459c8d176ac6141baa61a0f96f2467136dfef97cee4b986bb5426d9, 0x6e155424514d24255eeb2bd554d9e65e5f098e31ef9ce93ac11da7e62afa90f1, 0x5668c0f5e6a8085b4da8fe7a17af6b5c03ae8fb2487b816171c337508b209b21, 0x6d6983bb4baf4ba50e05651fc0e51705eea48febf440bbc833651d6a37e6c306, 0x3404c5eb3262d280495b055d2fc723e3b0e2c5bc183ab17a5ad3624a87dd73a2, 0x3d7c26670b68e96fe604be814c521a0ad68b61f21a9fc62bfbbb406723fd1fb1, 0xdafe0c2d2a444b389429ab5baaac3555bd8224aa8ccfe3c029270cac4f5eb28, 0x13f43f89b2cb7596e199c959fcd2e46a8f6290862a0fb9ab56e4f47aa1e70edc, 0x41b347313d1ef9690ba97804eabd5ae5d4ec28d26c56f34a81acc68307623753, 0x49e1084cf503c6c909ca254307ee4aa70cb4a204ecfc0bddb18529400c2bd67, 0x37efb9491397dc0dd6725229ad9c7606b8b50a665bdabdb2821cb1f2cc1c60a7, 0x215e4b8a5f8c417754c0563c49bdb6e3b5a3becf602b3b62b59a671043053fbc, 0x2babee2d2a6ec8ae375cc1101f2d883a240fe10b89d195544d254cb5df70caf8, 0x430e19d22eb69ac68414b7ae2eaa159a6b555f4fc20df4a43b70e57ff7d99e8d, 0x28b5f7b5e7ff24cc4dece7b09976c8e9a30c953bafbb5b31616fca5b28dde334, 0x10b64025438911d50643557af024602f0c6120221f4aa2dd2fa09437c38a43a4, 0x3abeb66f5db70790a3e6ee843630fb51cb226db7d1955db371df83861ff17554, 0x2d2b58c8a5e4b615035c2acf13f3d24e5442e816748ec4eab281607025500d64, 0x1ea1c9ad357f1cb51183e46b71dff5d5af79e4fe21a4fd03f8f8bf500d851ff7, 0xbf0320f400492f5491be00b47fb4067a84d75690589f97eebe208d7ffa8df68, 0x20b0ee8537d46f346fae820b34baaabbc4e67301ebdebfd8051033e984b0dc9, 0x5534e3376bb675f6c33d2fbfdb727d360695b03a89e69626e802b38b463b6be3, 0x4d2dc300bdc8648e1a7d526aa88f4e73cb0991fe58dd762edb89522971dbbee7, 0x6508e946c71cc364a633b1c8af91025f1bf71feff1bd53a24922c333b5d4298b, 0xf6c06a5db782abc64c3f362dc469b4361de00a6fa7e224a6306344df060d78f, 0x678ad8df5ba7f1c925f6adb214bd0d490dcd5ff918ab68c2041df4f6b787ed47, 0x13199437e444ee5389a7213eed0ae11ee05c6fffd4ca78e9536dd1699b0f1844, 0x2eef4e1adcec0ff257fd07c08c5ba886e3393ad3f98f003bbc6f3b61ae712536, 0x14d3930029e9e52be0ea45157e710add49f7b0b19bdf022c7072937222e2001, 0x1476bb1bd853d3a226ec366c856704891c54ffa391ff056f94143a82e225a758, 0x14185e42754b582a14c704aa0c9c977e20f97e0a7ac381ab954f8d5e280126c7, 0x695d2d28978ed9530919a6be7f8adf5e3e4ae5cf82a3a647729713d0accbc9b3, 0x640ffc7001929ed0e1d6fd2b61c2ec823e95bc73f62d71c200a9ce33f45de574, 0x5e93c70d596057a0566c55b8ec232532fc78fea8359e0acf1e87fac128a84807, 0x121c82e1afb0c5eb4f1d6f2f2481dfbd3a8ef25e509a00df5439c47d5b2abc6e, 0x6ea05358420aaf21bd3554a9bff5545979672c9803b0ba82ecbf0efbe0d4863d, 0x2d0e44fbc274d677964d415f1be8160871094f0effa04bfc680695cef7733d67, 0x66a6392426cc5848693815e9b33d5e2f8efb45e7caeb8dc3bff9fa4d7a877283, 0x592dc3284aa9cf5a0b371d67371d59d844010fc8dd71b5f350388d773f84e8b5, 0x2b813463492d1c6480c141dbf67ebf0e1271e47f2d5d10397d157c3b2ecdac41, 0x28b1738ad1b68e89643fe819a6504df32ec0080d7a32b42de14097ab3ea00fb0, 0x4cef4559be3db9cb281d6daa3b553db7aa1b451cbdd85735b0bbed9f9eea172b, 0x6e279fd5403789edfeb199bd0763e001ad2736c5669e32dd8379659943b7e71f, 0x52aad73f27e3b1d568bad96a4fc77218555d120953b2bfbd730b0145ad27059d, 0x589a644f5ce4d89418d979a14a28a2af944d64b88ca821f18d8fc51b3965277a, 0x541dc25da1d4415871931fd1ca0bb9221efbc8ec89564b6494a16ca74e9e961b, 0x3aa25c182d0b97d2e43ad5e9fbd5f3dec62a7c7535748f58b948afeb3e08c648, 0x2d33cae59d632d9ac298b574daf4fe99ff550b291a2f3bc1638808c84781f3b1, 0x34c5893feb1531490b64c3f2a6dfa341078290781189864ba887830df194ffdd, 0x1e9a064f080360c349d1e4ec094c01bda5d34ae25a54db26a7fb8c96c4a87087, 0x5cd7e863dbe61f90e69b1e12e19f3e65d25205c1296094479c5f29ccadc3622e, 0x5d941cc0f463ef787e592ae508fe6441c565f1f2ff2c117166c01b3e640c9c51, 0x416713638941b92999757224fc1a05f7e819b9d25139738250ce10066ef5782f, 0x3ca89f08d6bcea9f954f215b825d9d7c904149d05ead89e25cd062674f82009a, 0x29ff21b9ac87595ded9eb0d63d9ce5cb98865e8cc31189c8a81a383fd2dbd7a9, 0x6157079284610a8d995953e2cccde6f780a87f0e3f0955b0dfcd6aee79118eb8, 0x324dd6fa3a01430e8cd3d3cc2c60620a5a6c7f616756afd24ed0d52d7d1e16d1, 0x5737f60d8a588c308bd5f826da2fd4f0424ca829ce7c5722952ced01b82fec8e, 0x61125c42e496e1b93efcaec22de3314ea6776e2c0dcbad67a41ce2546ec0509c, 0x5b74db00f34eaa0f1ad44fbb19fd0dd1182b5116ebf467a09ff768122bfc5da, 0x24f127ef456dba4e5ea5deb119a3d285ec9e77e86e6ed44eeceaa0eefbdd192e, 0x1c6138bb65b1738777a4a9eb2575e28610eaffc660a6039445258442ff81f0b5, 0xff8482e346934505856a02873a9ec7a34cf26199849d0715cad88a29d95a64a, 0x21620ee71568aea6e95ca640001ea51565f3e1b1aedf9d497dd59d7e7f44fd46, 0x4efcbe5836986446220dddc686788ba784e8b0a517fe492fe80125b9c5bb07a4, 0x3618372644a0868d0ed193c17e3a4749c3c8627bbe2f313e44df842e38ceeb4f, 0x301761473381aaae1e712fcf22751e9a272b38f0b4bbf8b5bf58daa8a635db99, 0x3eee5f588a9fb7bc757b16c874d07b99a4b2cb48b8a6de449bb076ea2c3fab65, 0x40eb4231a4c83d9f73ff8f0c3fe70fada75a8a6f214a00881d639bada0a68fdc, 0x6c789505002f1da768738cf7143e59af57eee12a40cdc6328f770c505154da65, 0xe7984ecc7280c504dd6e3c197c1591cb958e27ae2cd7d46424a56613a026d90, 0x2172bed9e57e299a005596fa53ce56dae56dd94c2d8110303ce2c0d1bad5c004, 0x12df635f8550cc82a5b42e83b7bccc32ffa29fa83c650fab6de4d6e68be3d804, 0x294865b06d6d408ac8946509e724ff233f9a6c5e6a947d37f404a10e49df8961, 0x2db1c7d021ab8f8bbbc16c70bd3d4cd64684c7837d5770e3a7ab1c15759b3a70, 0x3e4e94f12df916b8905ab12a782ff6e9f65747a56334a73d4209374382172689, 0x4c3a8f706183ce4bd9b3fe14456cdbd892a144aa4edbea17c9ab057258edae61, 0x50f41c27c761567bd6b047d57d20006fd47827a53ac71615e43b231f6f16cda7, 0x101c43432ae3701a8242b6008a3eb65c5fbdbe0d02f8ad8bb48c4222219be6b7, 0x32e39c75520c6c655cfc8a24bae0545c3ddae90a7bc7fc27040dea4a62a021f5, 0x3e24c14e8671a91678ccb74c086b96d55b361fd094082e667cee6501db8bbbb4, 0x424800e35e8d1bc67b21404db5871f84f99fe7fea698edb3fc0e7b771c5d9500, 0x2515b040b943e43cbba473865ab46b1529444ba32fe12cf53b5aa3ab2a7318f3, 0x7274d0c4cb521b4ec2009a98625f3e5ee61e1459ea679dbc3809e220d8e9aad8, 0x3f0930b2aeb819e2657c33e809cebfe922dbb51bf0addb207331617d8f4a9f5a, 0x3106356fa6aeea353f05d938664f8d5eee6c6dcbfbbbea82a96fefa8e5e77d9e, 0x5f4cfa75baf25991d7fa8bcc7321c9d3f3f323a1ce1e2139b14eccdc350800ce, 0x73aeec52814f5e431f8c7882ec35596c248f4daa62f22f355bd32e8e3ff9bb85, 0x36489363f6890b3f9295e43bb77580740c2fd7444f807c83558d1a55ac54eec0, 0x3308206d13e37a809d68bb9bf05aa6d034997bd9e47093bf794b7f533d06956a, 0x244b86678c16796595c506c17b1095ebfb32f777e2c8f43fd605fa8338cffad3, 0x10fbe2481bb2c0eaebea09a5ba5b388548f6ba8268ea87726fec88e962347d63, 0x5912ec5391a4bf45050a8772bedb94dbb9229d7ed604fcdc4462cc5ca160c03a, 0x56f6363852951cbe216d148d007e97de6eb41fe87bdfe69cf2f96d0602219144, 0x4592ef4e00d22eb8cee7e903616386355a68139a77fb62e4928bf3731c5c2b0f, 0x3d804943c1f89a91345661862a8883cdf0c130b2db08b336008995d0874a66bd, 0xf552e3d587879e34d09d5165742c740e07c4d4356d2ebe69d500dc324896d6, 0x69cf9e16a6ecf8ebf2bad8d6b915370d9e7556b8660f175484320ccb6d7fce4d, 0x35d98f7094840a9794685e8782629c0c03481a4d5995a1299ff26a3ec002bbe5, 0x51256eb2540ccb0cfb6f2babf0d501d51a16fa717344f2984f546cbfacebb74b, 0x9075c6b495043f881f2a7f22a805eb1ceb1bbe8efa0d5570242b3a3433f4a12, 0x69bfab8b95f4c80b6b82e6f374dcee6ac56d127298fc8956f34a154ccad8aa3d, 0x68531ce530733dfa2208074a300b56c42eb4c11fb3b93e081135b96a69ec065b, 0x62255258aeba35c60da617ad4543587f4b0f6818bb3ff2dbc12ed8e14ac68b28, 0x18a05e608869a933e0c6515da33e1ae84af66ef470244ce652db9b669cc3d424, 0x6e4a967c3554219595c99eaee61fc34de2563049a9486eefe2d1ecfc3719f32e, 0x610bb67d19f614bf431ae18f3ec3c61e45b86f4bd669373a89f9f12bcd6261cf, 0x29c140eb3a1d8e7008b1873a81a12d882a10fe2070827ba1cab2add200c28fee, 0x5320ba3e2294941d0fa83fc7c4b02723919bbcb7333a1129fc85ad6090ab4b42, 0x503c8cc8cd96fa36684bae2ee642654765be405e9c565e79d465f522835bd1b7, 0x8b4665464a660ebc5850e0f60f73e8c624ef9db932145fe924620cdcfb25f8d, 0x23a76362ede923f042651fc0287e7dcfcfb808d770f353272849dd833c6d673f, 0x5d19bd9b69f47daba32ee6626d23358afe3cd1819e2d8b2956912e470e2ac8b9, 0x1bdcdce666e8842d2804576b41a2229694ff486035fa76f450f36f9454f62b73, 0x63e547867fa8647d8671ec791fb7db531a16a3d09c9e6e11fca8f659b39df20c, 0x678fb3707b25ae332aad3b4e4dec1eacbe98f81eddf814d624e8469321610c07, 0x5f0fb19336b4170f452608eacf6fd3a3b42938d8293ae0b832921a70bdea200, 0x5e8e696c1c6eded91d5fd99e5eeabde41a23ad73419a5d2a246a0d983bf6d775, 0x324c3a87c72bd7cc3efffeaefdbe4e2f2b20c4c90073c264c44a7ab39ab3b415, 0x6198b0753dacddb0a11113aaa1db5744e29211ffc4c285c154e7e0e86cec4201, 0x70064b6743181d8a7aecd542452297325c11a0a6071902e1758d69a3b9a9dc93, 0x54e4b12f486d3d8f15806c234aaa8da99bab0c0db25392172a8b52022cae4a6f, 0x692c3543dc88e37b2e038212007086f9ed5fdce1e85cc0406dc15b1dd1dcd361, 0x3fd24f8dd0d0067d8a23bf49c1434835a81f3ac6fe51666398059717dab440ff, 0x15ac6e4c4889cb0a9cfca0eea14cb8ce26b8e50e7b111f8402075b61a41ebcf5, 0x43a9fcea4740481d0013451a6f0b7ed8f4460f6f712811f5b4529fef76ccf9e5, 0x5da1f9572f2f6c9004425977456a413aa498b3711c0b80e26b20fbd2bb966bb5, 0x197065eb34cb86f03832fe85db6d4e870e1e8ced2cf9d83dcf177bf00df668cc, 0x6f689a4e6086314733d30265b576f3380f221e488365c9faa2a64e3b2a77cb02, 0xb3f7952f5d260888658595025327ebef5faec163eed58ed8ae5f7b32e0dd5e6, 0x322d7a32dea97bf4a9be293820acdaeaa66176169f134d536d5713a0940160a8, 0x4327a5087558f40a4fb36aed97bfd52c830d9356735a4302a94356bdfc692de1, 0x53dca974840661927201fd0b3165b5a952f90c06aff0d8892884802527e90612, 0x54e976b9473366e99a6c4204a9224c37f20fb8b7667bdd78fd8e629cab2f2aeb, 0x4fa345306dcc5f0dab42c787ba8d3601c5bae11909772086afd6a897561c3b5f, 0x41ef0d51f0d70d8a9eddf2e2c19729a5c7cc1a445e4db6fe20ca7ffd9710ecf9, 0x17136f64051febf1b7b4c9a50e20aab047d4ede26281fc70e1981c3b79948b1f, 0xfa139cd78da3dd44a3a943704886f11f514976b08dc2d0d718be1d1672db68, 0x3458ec57be8aee89d0840e6f0a4dd888f73fdc77e4e300d1158c0aa0aea0965f, 0x3f11f982af45691ee0f8128f2e8a792ad623ec0325ea656ea04af3290de2335c, 0x655f8185686334862738d750f845ae9cd17303a84d8c1facfed2c8fcf53ee08, 0x4f981c446f1fa46420dc37d345321bc6f9942c04d5265f0ec8a4824ed2d0c0ca, 0x47f0bab1b3bc3cd514cc52dc5bde29a8a85b0cef61332bfbf17882b4fcd2c2d0, 0xd3dad3a7786ef44d143b82e4bd9ceae39295f0b9a0e0db2d39c1ca6a2e71d52, 0x3dd4cd56b1ea793f92eaf1fa536fa3ddf7008c7c15efc5f359c4434e1f916529, 0x3da9644d56c4c2ac986af13a887ab7e33c6494e11683c3119bf9d5c2732f6265, 0x242bcebbc4994518d0ded23eb7fc347aea9853dc3cbfe79075fd4bd180e34803, 0x70f2fa5e97c89461ac7bc47f1f4304ec368093c4141ffa31ce2b5765506d292f, 0x3ff692cdf2ecba70b2c171163201607a8a7c8cbb8a1509136b262f4ff8d2bf71, 0x3d345d2e771d51605f5bdcf2bb3bbe5854bbe20fc23484edc1d701896271e9d5, 0x43cc762235d143232a9ee4aa3c07021492b7d7342d4b7374581242984fe8f167, 0xf9a1cf872380610e94f060d64476e2b3c8613720ef9a8facda5f8588c354e7f, 0x2b056c1b0b442447cc3c025f8b2df15bd6b76c66efc1fabb96d9cd116d0e522, 0x3a7900eb033936ccbb6e0940f2415ddc9d1d230aea28d8af225aaffcec66ce14, 0x3778c4834ecd661b0861ab58274215348c1d222e5741cebd01a63cd1f87afd53, 0x577444091acccf55fdde6f95be37c04222fa88b8b3786e08a06303f82d1f3271, 0x16c4cb7e93b890d06c9e84804c811ead88a396344c05035d5d65bc802add205d, 0x42e92c23f1cffb9758a6d54024998680099d218b1fc18dd8734f24b1e604e57d, 0x3e43ba1689428dc47ead6c81ca6bcb216e1ec6f845527a4dac3a178335be1731, 0x2c1893af8d230f860ccbc4eda4e4beb250a4f60be4f2508e38246c1944c33b36, 0x2401ee12033104d2b0d9f5c5ce2ffd4d7c481fb5660f6d930b8fb6c85a0b9801, 0x6deaa97e611c4831c159b19cf625013a829ec06efef26400c19d3927a4c8d226, 0x5a4e41bddcfb745c5f5fb84fb22e9732643a748548ab1d7b334f661a0e56b86c, 0xbb318c5855985f5d24905c0116990dc8fd8cab35f0925a64936f19fc120e9fd, 0x5f6826660524619470da219ae95c77a4dd7a72d023e1f9839e67c55fe5861a6d, 0x24ec6c07735bc3f7d989ef56336b6e2c13b557d9e090d2f7b8472927f034d5dc, 0x23bb46d2bca7ad182f5b16b45ae09d7140cbbee285a500dbf00f5da200e8af77, 0x2a6654c7e3b0a5cd663ab3c25484da26d8efceceeca83b80144b9639243d6c89, 0x2a9a9614fdb4a1469456bf16883ebd62da12fdaa3ffed003e808352aef55346c, 0x389334f7bc98dddfef83cac580767a980beca849228f517008d7a884cdc92f60, 0x5e49b87b8909a1f388dae1cedf9e7be52e0d4b76cd84b5c2bc5935f97536ac8a, 0x70959b3630cc7dbd0b365c56c3680bf0218eb0100799a8a81d287d1702340bce, 0x9b58c5870c7c0c1f858f2a862272f9f56e924aced8a38e2f51478d5cab9847e, 0xfa299cb38b3902b57c3f7fb63518a3138e3a46a5b2535e15d6078cf9778d18a, 0x132911bed345886d9d80dc87cd3b6ef07579062950ba79e416a07675dcf1f678, 0x237536848a6f8fbae87b8e17915d4f162ffa8ba79d8aa05abec282aaacb366ac, 0x60ff3413dbb6e7ac34b519252553c3551876d2553b1a2e8fc52f9e5c3cfaedb1, 0x17c3a489901bdbb0fd7589b705205487e7fe30802b25d16f6d723e1bbd4b977a, 0x69ce31afe2781af7a04680a08e62479ebeb6da8a96d03cef4f4974c19d5bdee5, 0x1c2e5c9d380a74ea1ec6ac98afa99f59c99e8282a5a8e6dacdaab1530a1ddd86, 0x1ccca98b082f2f49765879ded9709783df88126c2a673173f16d497d19993def, 0x6d87a1326c7529ae9092a9d2230fc3080aac2b45662227c4bacd4d64c46ba093, 0x167358845e781a8592fe196ecd526a7bcadc6a1696e2107c90ecc5c2bad41bba, 0x26c9e0fa8432499e1463788848948ba3a569429ab2e093d21b0561099900eb32, 0x9029998bc114ee939243aab600e0835af9bb16de976beb8fff8b576433cf7b2, 0x1ba31266b6b35079a78d1dc2b4035c341392ba1c6889da7b5cef63c4eb78eab2, 0x71d95c2584fa76dc1779c588575995c7a428a9031b7e9a2475871ca66a80ec81, 0x55921bcde03a7a45b9c27d606f280f72542230d5cf38bfad1a2e9c83a8dc8a19, 0x41724796e4fd98bae165f604796a0ac7240d5d3ef382f6bed51d8efc565195e0, 0xbc32b5c0821f8f5b86d5e897001b032beafef850e2822d938fa941e4c27b62e, 0x608d412d84f2f522ad7470a81568bf3f8cdea017c91aabce411695b9013ff9ac, 0x6605ecd6fb4ebdc47cdeb637892bbde51c55e98aeffba88d40f5bbfb5c41978b, 0x68f9f6b2bc3500b97ddcaf202730bc448c6045c605b096f99760dede992d96d0, 0x6ed076643326b639832bb1aac557908e1a0167112c315d7cb44fe902f57e8b6a, 0x2b1feeed4fb0e01b291cb76fc536d0c0c6109da5b1dc0a4d1d22347721dd0a46, 0x6ad7eed8c87b4cbee783291cbabde81d1a78a6cb244a07760e07bf5d390c7164, 0x23e2b6d33cc0f2386f714c53084eb4f54d33e851d1e5eb286ca53a5df48c7856, 0x54b54d82774bf017af07ec8c718a4bc85a78709e212660036073b3d7b9fc0138, 0x2cf6dd5f368b49e2506d77dfd58ba7cc9c3cdd16f06c87dbef96b80cb72cc14, 0x29670c4e67187c26945545dcfabae146dae38a89c694a2dcb463aaf85f5e444a, 0x70df49dfcec4fe1e9fb7ad18ba25d50efa31b67d387b8b2a5766d907b22b8475, 0x36f6d630177a1c35581869ff618b6563ac78a5e8499dc9c3a4da927d35a3b4b5, 0x3f036bac5e1f75ac19e4d16e82eefcfa937ba591d53c452ec8376d71ff621e01, 0x23133f705046fb0d93797a039027f77c6a49d5a8d3b0c6b4f229680d168b49e1, 0x1cc7a2dc2618d1d4f0975bf3236ac5bd78d885c4886a2269fb8e41416be4f1ec, 0xe80a9ff2e555932d845f51ca0e28a9aee94492d3575e235e7828ed87201f752, 0x6b471e71cc20f3039eb40de6f2dd5a5da842dc483ed7fb82c88cf04ed4e1c8e4, 0x40d5189ff477b86d1456b6f852490107b1ffaabf28e74a91a15f6f0588dfc4cc, 0xd71f262c97be6b0cfaf5e90baac828ed6fdd25d13cc101ca8d9b5032d671c63, 0x7354f2bd327416f16a21d1a95d2234d356a48d834f9448af9c1bdc20ac9f2138, 0x4b46c576da68c46d22e5d431e47affed3a96d87a7561536d94944034c225f8dd, 0x1bdf423b67ca4acb04b68b8d11478267df7ba4f7b05d80c984dc50187f3094d0, 0x73206c455e72c47efc71be06a365a9e7e4c470264a77efd00244c9deb24cd504, 0x1a623d891c9301477c91e4f1f85e46d4acec2abb716594d40f140648dbd421dc, 0x428342bd573ab5cc5dc09de9e619aa26a2f51fecc42e6bf54009ad859e90d1, 0x2be5830db5c0ebd6b177ffeb119e667c0f95fb12f67baf22ddd2ce402264aeef, 0x4d3fd8c0887f1a3e20b3b7de8eef8dd04eb07f4c25d1ea2b89955cce970a2acf, 0x283164ca0807e1087e7b0519a845bb57f86c33d63b6989f6a383b669269ed661, 0xba7abc153129eb492b109f166129132b83fc8a28ef6541736d7512d6f19f8dc, 0x5281e411f9cb59bc533a4a07611b557a3d9890572baa90015544f17693090afa, 0x5bd80e3c8b4f2c42cfcba0b41e172604d742c531ceb97022fde3e21855b21428, 0x554aa32490d7c22b6c9752bbd0dc5dde2379a648a22efde9c4c6720ba6dfa74d, 0x6d07606fc53eb5789cd92404ec2d12b0961c4118d0584bd70d3262800cfeb36b, 0x34dd31decebeaa7b9d83a68c105d739ad35ccce302d69c52d22f78110dcb6964, 0x5c800bfe1a99d490b92bb1431c766273af6c3cc82bc20894d90039da05640466, 0x3e736620d4d7cc211dfdb9b4dda9a6e67648f7801706b10b2bbd30c921f3aa3e, 0x5fff6728a7464d2c990393ebd7bc331c45bfd63030c6092e61d40bd8ed7ac73f, 0x685ca4c1cfbc7e50f85acd0f87497f5b0d40b88bf3489ee7db34c77e775d5d52, 0x36d830559f05c0fa6002c78816e8a78e05fec757fa1b2c2da6c15117c0727afd, 0x70e47e62c670dc32d26b2e3250a19b364cf8e7cd76d1feb206dc2099a7f72519, 0x170e19a8d6a64268438ca418efe3100ab6f55e89c7a5508f899b82a7ca6ff20c, 0x21fd98589f3d85877b1b36d29d44dcddc21b0ced51b41695403d7542c394b890, 0x27df7ab3e25d71625e58bf5db74ad49ba7cc5c1e3b475c28aaafcca303078400, 0x3547861f0a4c362c61214abc6471ea9124a3243ea7cb57623bf50856bd953ba1, 0x228b0e8ccc22fefac9b630a71845fad96e3a1899baf92dba387e99df09fc08eb, 0x344dc3d011d50411bb85dc7231ae23367457a7aae4417f362d4fc09f8dbf057e, 0x11c6f29ee7af44490c578b338edcf56d1e447ee00905c39104e5081529654f09, 0x6900a830eeda9b321baed7b7cec2c0a6d1304b960f3fa187ea467c78cca8ffef, 0x122b07c26e238f1759a461686a0f72323d6111e661fa8ce5a832abfbb241dd42, 0x584b6567002471b498d96d1e1d98d5ba18d7ad7e5a4b970081394de0b9f967e1, 0x1a434af053a55471d6c5fbc2f7df810c611a32ac0998e7c93b562528365cd0ad, 0x24be2613bcd4c17d0d4a2c5f7fb7665dd378166d6f4c5808371b4a8e2494d923, 0x63c92d2f6157a990ea98332d931f10b92bffe36c851b8dee806f09abd9bf3a6f, 0x4babbc68ddc79566e013971c80eaaecd2a1ebba1c3aee2713b352b9fa4a305ea, 0x18aabe169b8b13c8fb1de265f35ef1eed47f694d38686552d8b83eb28923b579, 0x27febd36d3107d565a25b0654b447020bafecce550c9b3d00e048c729fe8ee1e, 0x33d2b7f432f4f22441b3021d0afa20fa83be6eed43228ea862035b6ee0037d7a, 0x53637e9148b665bca7b01ceceb059f5ae6aca32800b8a39163400e337ed623ea, 0x5c06716ea82f70f69555d3e624c91f03bbc4bcc92f41ce3ff9badd9ba14ee88f, 0x44b2a3d869ba7b74fc34f1dd79e51822f21076e3e527c49af31804cdbabd208f, 0x703cbd7015df42b043b96a3e74bad2e4edbb6b9ef3ee47df67092e3e20969604, 0x5cd7be441170ffe01b254e2b29a06f15bbd73ebc184715ffea47aa18b8974337, 0x2e393a8d4332d5b9ce75fa3522e51c7aa71252e3ecea5805cfa8dbf07aea45c1, 0x3e946f08f019dfd156c3cc3c19b14c18f8adb4e2eea22e9517edea6408ca867f, 0x59c94892406b56bdbebec70790042e6ecfae59bad97d778a8618c66910001b5b, 0x12f0e1e1a5d58f754214eb0efa4e33ea99ae3b93a7570d9825d0f794867dfca2, 0x219baa25b34ea6b66c03df19ecb3ca815271205593b127e0e371df74a344c32, 0x6e41917c4ec1380d5da1a1a2ab52adb12a62aca7399b281e486d15cbcf614600, 0x137f8cd308269da6e13589ee4f51d43610159faf3ce3f3665fa631d2af538e96, 0x2e7c363285ee4d3bd6c41c1d97ce355b7c0e11419e2b6bc0dc0f840003707b45, 0x3077b6ccdab8011fb6e3fe3d020a3eec9b773b86c0498499266f8a431719e18c, 0x673ae65bdc3a1bedc792b620d223baefa7f58dedd22cc68c966fc98beb91c141, 0x7e794f7b1f7a56ae2438988aaa6b2c4ca4366d83faa65fe549b12dd5755572a, 0x5ee094890af4361b93a0b26ef0240105d1802c83fcc9ea356a35408ab997e206, 0x115ccaa07717a6bfd99ef1d85e2b10d8fdf7ca51f4c8344c381270242b3066ca, 0x527573339dc1db494bfcc6d991ce612695d71ae9df34044e5797345a14c5514b, 0x1783af5c325623f90ffdb6732ea5b6a9f88f44f735808ad9a82882ca967de415, 0x6472ae618e9175bf3b621cfb9b8e4f9f234fbd45d91efdbf081a0c0f09e73095, 0x66ddbe35e7f2adabcb6757ff6369d6cdb685e4a71539961038500740749cdb76, 0xaec88d8fa255f0cbe24847affc7f71645f9935d89369044461a052257903466, 0x8ff792bc6b94aed27c840de1c369668d50243dec873a088eedf48e27bd48e05, 0x5e2372cf126dd570b90599f17b09a2d9efc4f09f13078c098802caab7d255708, 0x57eee977e182feff7442b8c05028b88ce39a70eb2dd725fdc61e933f60dd21eb, 0x249ee4604cc4d1966042486f8def3feccf86f729bb8fc79e55085449aaafdca8, 0x31363e3b5bc847a257e37d159c12f0cb6cfd0d060b4b5751b917ba4d8961b6dc, 0x1a8b4f22b7abce2e72aa3cc294aac30542a4bf5b4105c599e0d3165e32b4ec27, 0x14f090f8aed2e4587afcd0a574441bf150f11c193bc6cc3e655d79b262fba802, 0x34c5955c45c47cec32d4f68e657766893613ec89d8d06d28acf1b029befd3046, 0x3ef8b7f31e0b99fb00c25e0a7b22f4e8fe5d8db417e073bab86cfb907b8848b, 0x24a8adc7c134871c7366cfb7d3645fb946fe102e9d3bb5233e05ecbd08cf23dd, 0x30dca12b090340880d459c078d6611102d52099c91c9ac5ec77edefd236dad37, 0x589d87525bfcdccabc8c613ea7b14fb2af9ee35c572332e693e866243f102029, 0x548852dbda85010a654938005c02a8772fe6f32cdc254a8d72997bbfb601fe11, 0xe70033f17976e1f375bbbdd02a2c88a2725e597bda19832d5b1098a20de89a2, 0x4ed40392a6c9a2bc57448bcad65964374e96e709ce0d9295325451bb9b2f8329, 0x299dd6b9061ce33ba51cbdc4a95f6a446811aa3340eb3d96bec2957cfa65c947, 0x3dd27874c9fd7b8810a29ff39de904cb3ee2fbababb0c83a722b247c9efcfdad, 0x25ba26d4060e2d65a7962629948dcae91ec9cfee50cca1a88ccaca57d6bc2d29, 0x3e116214224da5954e922b53da1a7f28632b224c364e02da39fe6e8fdf804a53, 0x15ade0e25496b52bb335cf905e7e94841d5404f7af51693bcd4612063004a0b8, 0x4b2db4ed76f6e774ba17f26ca4af4a32eb6fa3b429e21c21ab51469b41820d43, 0x114631780a8ab42e17be9e6bf509cf7c737d1f2a8c965590104d65bac608d8cc, 0x52f69cfe1715d8a95e79d5758c8fd7c27366f74fdb7e394a6bb52b4a0a2eaf14, 0x41832593ec3fb17b4e6ffe6607df4d8d4f3cbc46c1184de9b999a836432197a2, 0x2c325846b7f5c50796ebeada233def91ed70b4a3df0d101a0f2d5cb0cd3c61dd, 0x12d3de09d589e65b8fadc5d850b32ffcb4b2ce13c5ad83460d7e63766069014, 0x2d244113fba61d3b85f859f94f240b427ce1aaf07d4b0cd8a5dbd55ff29ce32a, 0x2050f750f2ffab1ed2ef13055f610d64b27ed539b61122c8ed5c811334cfb5e4, 0x2f59f8fcc246b0d23b229e1de87958820646e7f87f02da8c2d8a9b648b971326, 0x14d5f9840f0f2c4ad85b627c5189732235f3fe41b56a663be9df76c5f45ec19b, 0x21a68afa0a0682e141a6fd5a97dac6933bf2cb8213befa404edc1cef68df7d76, 0x6cfb1d24f45173b358957d6c9154757f3964b243f022dc3b95fed929281bacd3, 0x559d230e07954f2686092c32476c9b31d396451f8948047f317d540b23687bdc, 0x151ed49ec43b5e53a72b1a280f0663fbbc7d7f177b291222e148508ddb0a4d45, 0x6d785a4f867744f0e8c1c56abe2c91944014946b59ddcb9594843acbd547450a, 0x2126a0318f1bd5a4dc394949a05a868f90c00b1d313c6b889f122b708a526b3a, 0x6895700813e3b32ea7da1df4e4db21d699532481e87b30d4018a1591d3e91c52, 0xc899f573ea17b413bc1d7e7bcefc172f256ff16be466d9def9dd9a52c3cbb74, 0x2749b7434b719d9693ba0b7dff6a4c631c37e55980cccb2dc2ab781a3b62d9cf, 0x2a318d5bb5145205728a95e5894a25f7635b2d2e6da9b691e25882d998bf2256, 0x50ebfa22e17301710fa4393202e47824409621a2abb9e33915733875ce8a2b17, 0x5e0a249d27047b1ee2caf06d7ded51ab7335669dbc117eccadeb7c9bf0e46b7a, 0x33b8baf9c97ccd9ef3dff256c76e96720199abb7734860b87c1cdfb1ea73bd94, 0x29dc5cd173e3e674fd6f241e63d364cff657f96221df86cb64a0b1044aa3980c, 0x48726235960de2fa7fbe50e5b06daf459a0d78b1bab84ba0bfa9e0507b07fb59, 0x2985bd17d013886ab14db3d032af2bba953bf595534912a7ad7ab65cc43a2297, 0x911fc699bfc8ef6196ff7f610b3f1fc35575400d225ab475e327aac84290c57, 0x317dc1a4fe5adbbf1fa8bf80d2789dd4e56c0015d17777e8a39f5d965b87024f, 0x39f6d82f1d70af5a7af6efb84d8e3f364dee4755cca0a21085fb15b6cf64af13, 0x3186ac2ea37aa9d2212553d3bdf886e1f73c82141e9b9aafbbf6d3e2cae4080c, 0x64c4d1e40c91a32de6630fd8384b3f3168656ffbacde58c27e575e27543b959c, 0x63c5cd2f36772b49d2fe2921cbe4fe282fd477bb671edd19ff3c0ba04feeeb02, 0x230a96eec47952392b9795b699d70c29ead3f183a0ff2eaf64fb569b12e8ad05, 0x3dbf7e3746e6650a3e75c3549dcf9446872ac8b82b45429452d46da066b93dbb, 0x647baa54c13b25752e945e4fbef8448106984afe2a601a492a11c2a8694f5d9c, 0x3d66513d9aec8b820463fa1e60d917239495009cacfb4bb3427e39fa1ae5a643, 0x98a9f3f9e2c8a153071dd35c22e19a0ae03f2dd4de915795b9e1aee7c24c0b8, 0x5a2d35dc734d9740be503180fafb27a50e9dc49dec6d461916eeb2622576129f, 0x46c98afebecf9d8498b876653761ad791870521230ccbf31ec6fc930f10f4993, 0x3bbcc2e711d25e76e9defa03592210c204a534a55bb5fb9715d9b9efcd87aad6, 0x7078231679e6dab5b962d8aeddbd792cb81e20f07957c0139168cb5edbedf775, 0x253f8efa8a00b201ec09b4f4d0540f0efa4610f4d104784adb39a92bb4fad923, 0x1537c1ef9d5b1cbe91acfb80b3d00a5519560899cd909d11ed73d855e7694091, 0xfc8ca78bdf137e7296391486b15fcc116c9bde447382a2f872eeeb9bb5e2e84, 0x347d7e167e3ffecfc00f05bea89bcabcfc0f19a1b834f06f763608a54e591212, 0x3be7d9aa698cbf84e9fd9132bff93a5d6e92d331b433c76281ce1bcfe0c0dde5, 0x71412a4846e626b1d2feecec0042ddbb9ec2935e82aa4829c9aeb7a74be96b82, 0x2b01da80cc45f81f1f7be2edcb08298600396492787d152a459bac5d075437af, 0x1a6c1aeadec93fccc8602231000b4437e9219ed5cdacc503c63189cd0f739cf4, 0x3a3aa8ffef3af441f3882c6b515c3be61d90d3f3ecee0af65ed5e3993e6ce864, 0x66667e20af14fd46f7fa2e2ae2aad9fdfc7e060a7e02722716d7b5515d39b4a1, 0x38c8e785177bee3ca14a1f5b8b946b4a9204790e4a3f4756b418a733d4155fdd, 0x6e396e351168617ba52afd3a41a6057d4b6785c7763ded6a1002650fd3e012c0, 0x690764c117f96bbf5fb4fff5677a69cecfb1c7ba26ffcbf09af31f4e94aeff37, 0xf3a92c64a8483773c6242c6c3d70890b219db36770ae4edc41a0e506444789f, 0x3097f44c7e7a0b90bb20838224ced4da0fdce93f8df27cee90c5b55a1ec22d02, 0x30ae63d05a1a928c6794d674f6b9a0d5377012705875929020374f8e65501a07, 0x34cdd8b63f567b4c7304bb1b3465744581ba6fe876b9f65ef3090842750f10c9, 0x50f01f6d3f81c7f20ee4918cf75c8d8781c6c2d1797e5e10b163e50081cbede0, 0x975e1f5629dc37356498683dea5ff048d2d0b34b979a7f993e4553ad221107, 0x581c3e9a6a3db331d5ef8dbedaf9947e0d8e92b7f4f57f4bcbb208c44d972888, 0x42bf2e8069c6b757f61f57e0c40eae297cd5e83a0681ac220bfd307ef441e500, 0x15632b683fbcbb1006085ce09bbbcd31365da0f009bb4f6f29301e3e2a33e280, 0x5c5a1ceea9a233f900a5daeca21c385b6ce92ba9bc824b197ad0e7b24ee25722, 0x6101649d2c96860c2b9515dcd8217b618a378246343425b4db386e0ae25c2408, 0x80d1168e7662f60a26a4256c81453f677d389588f43df3398260645d0bb9dac, 0x5db8ada51fdd2f5c6200d19e5651df2ee2cc71d7b303b518fedd901169b928c1, 0x70adbede03d1ecf25441527764126f827315b5650fc3bb18da670a1b7eebca, 0x109012db0a05985ffafcc9d32ddafbf8d0b318deac2b70186419bbce000ff019, 0x51f08e5677fcec6714c95405bb12210af0b33910a22dccf141af4538fc2840fe, 0x2848795c42d5ec3742596a12c9289aa99f62ac2b11c7f62a6ddee1905bece235, 0x64a79a50bbf42f081619440a46190fbaeb5b02add7d7019f56bfef0b13f90b14, 0x5ddcfd4d511dc5310311b944eb7cd840c2516928be177602e066932e8c86741, 0x572f5601a7f8db2fb998dd7ae1c1674c2ffaa6ff890dd6642da4dee5dab691a, 0x1a6eae77fe46dff124e8553d984452349b305f29051f1ac49e6c6c088ed3b7b3, 0x6b6358064815f5c302d623027edbca74c8ba3bd08505f92fae85248b2e0ef484, 0x1fe39850f1481f54d3ed079147073dc0033117582adb1c5547e038cbf7159e3, 0x4c9fe86b4cd80b8999379668ec57fc4de75d2917e8492878d17af7618424760e, 0x6d9f7cb3daaa6eea92b8f8f7c4db4a041e0d92d03d69001ba3b1cf229adba547, 0x37dde8146a6c59ddb7fad40f2a1a0eb2e3749708700c2671a2e912c3f0684532, 0x3c06b26b91d1e2150e59b04a7d40ef4da0d3625f4ea60e0ef97ebc2ff19c319b, 0x2d61276a5f236769dbe7d6231d0fb9ee8391faf42f1c7d3efc720608d44e3235, 0x617e91545a3985bfe17dd2e8005b2b687b3dd4a175fc32a824bf5f12cfa6490c, 0x6d5bf38a18e96b32532463f380af098c91660deb12f86ca55415da1d025404f8, 0x68a7003434009f84a162175432650d5a1b9d3ac253c222a6672e921f07542077, 0x38affd9fe7badd5222b572ecb434bc4aaadf9b382f15f9a10320c58215693aa5, 0x5161a16b6318264a255195fd3baef15a9877a581be10f5f8e63da36d3545a52d, 0x1e2b547d069cbdea85831ecc7b8116a55096e3368650059a58f5ee404fd5907f, 0x78d2b93f5815ce7506763fd36439137627858f237c1c84e29d919a878d34d94, 0x60b24a2bbdc95c125b75aad77161def7a7dbce5b824645d325e8b64e5e8830b, 0x566b99de1ea8eec7cdbb5a9979de52ff71216186a6189d0f2dc78253f937f53d, 0x540cd6f7690c6c342c04272b9d740953b3b4794722b1bcf2dada892c72071045, 0x85d1ec5ba94a0fc0db3e2c61a608ba94f43fa30df2233d91da9698a83a34340, 0x2be309df77c587485ac1832f1f6f7cef1a26ed85f58f29bcfbc8f5a508b462aa, 0x6547b08edf81464c658bbfe833cee457d61effdb40532095254672f73c83768f, 0x37b27a851cf6900909058d674ae4e1600628fcee39b128bf1872d9ca53943435, 0x683924783cc54bd0d168dd5bda2613b5f3ffcdd47421ffcbec172897a87c7fed, 0x3b93acc46897193f259bab74a184ffa8e4d27ccd07a3c1ee4a0f3bb61c319d48, 0x1f67e100aebb8e7bf4017b6c55e20812cc3142e0adf202faeace6cbc852a4ae1, 0x3614595113480e96a9b99095d836d31c7a533d85ca9dd2f6de32cf8e005a9fa7, 0x65192978a9a3f09764e8a6a3b1ba4771030ccfff9819d0d9a214e3b87e7339f4, 0x400fc2a251c39882806cdfb75e80587a0fca93b530088631805f9d4ba811d25e, 0x59fb856d38d136dd2af8a171072a9bc45b92efe99394d98f8803be99b49304ac, 0x66fd652dffc0ee36782548b6b4a71f66d36dbce95b2c6f51d84e9eedbd071ca4, 0x4ebde6bcb343f6c16e6738f3d065c8d96df9759480faa39348b15bb1dee273c5, 0x13f695932906d515166caa45fde377c4e37d827699d9a32007e1bab4a19c2a63, 0x58e55587f1c3a7fb468f87e0158f235f2cfe03e8620d1418bb98224bff97a548, 0x29c8bc6759ca61b2dbb4da3742943ef28d0b89f4a9e706ce8c4ae534d943799a, 0x3e2a13600c6ca5cc9dec28f27198d86e9904f271e5bf63bf1a95cdfb1baa63a6, 0xb2323c1ece09d14c350a575051e6eec27be90a3b941fab476becffd9a768a8e, 0x73862d1bb94c2d8de316975365107180ce71469f92e995aeef23b52ebfe290ba, 0x3822d20def6bf23a4764dfa51bd5c7d57cbc2fd5bf436f22f9147b3bf91f5cc, 0x27c57bdce4db7656b11d48486497d01764cfad888cba61a5cc2d6b79b95a1392, 0xaa921bdf566c8f48c292b4566a6024e11395ab771022bdbb567c9f816b764e2, 0x4b134ef8560a39a7e2462f841d0e6c767cbc870f35d1e764b39de83da061eab2, 0x8936b218eb31c133ccf2c43a966642eea1b2d338e1fe634452071fc41d6a7d2, 0x1fd1a0ca213d350e2e9e8255377feb07af608a66ce56f441fb89fcc85017afd6, 0xd4e447943b56eaafd54b9ffb451d4ce081996e2449a8ccb01eb7ed470b1c911, 0x429b9a6068175a97e011b94d5a73944ae8782a5cd2fb00ba9580fd911a084015, 0x233cd087f5604b643926ca0cfd3f67b27b9c81bc8a815e3e108d9b81961529e9, 0x1a751833d7873fe64b7bbd2444e82493ff5dd3fbb81139645f31a9af0b5c09db, 0x444f84ac62e3353ea6ba3047beb62e700fcb8b03fd4a266b2aab892f2da8c508, 0x6b76eae5d6f418d5f9912a7e444ed3fe7aa068ec4f33172cc344cb1e8a3a0f12, 0x1efe59d0e0b18bb483507b1c1a6a11a0f12dfe45e93ac084864c6862c3d0a37a, 0x3f9421403757bed1b55eb6035832cc26d24f5d419bf71d6ff6aca77c3429946f, 0x81aee572a3c17ee11d26ee45561d59774b043b2c89360455b7312d66536ca1b, 0xfefc2e0f542688c4c19bda3862ba783614d2a83588b4b21645f3710b1376a52, 0x69f4f26e0bee209afd420a841b190cf10a212324c70cb75d8f19d15248ac33d5, 0x81ecba2cd7947e864c81f45a0f9b43aa53d9d2b0e91e904443c4ae543592936, 0x4a80f67caa578033caa3ee8ed21d3c0601ef5ec3feba9e27e7be0a40f916bf3d, 0x440972f7688d668fa1116b29d954cc6aa4eae56219f8253b1cadca0e851bed5c, 0x65a9ccd7a5528edc61829b9bf68fdabba6f1d9fa058a1dc161809bc465f67e28, 0x5a6226f772825852eaf0b723b3117fadbd80e829a20cc7f37a83a49280d3a02f, 0xdfc72189e1b1a6fc7485bb8628196170f37b98e751b4ae7c628cb39072dac23, 0x769551a81b4d1654d140b27934a332f2593e71af4fd82c4cc2d7939795ded47, 0x1e34a642264d9756527cbc626e747d6b3b30927203f220e17be90c8a719c0f74, 0x3788af63bf259c63f583c39708de90a5e15442d15b71adf434ac2d6e00ff4715, 0x36ab41d2b78e4491585f3ea3b1964f41d98f58966ce4703203c8d4f9513c2ccb, 0x3a7beb4b1da1defb8fd69c9dbc0272639923686701e93f193426b5c22c4f4bdb, 0x562ac269d83ab35f782deda7db1d42db57db35d69a07cc36e63911f2260d3ca, 0x5e9a2acb66ff609ddf9c8d777dc0ec50d46e8557669b249a07023e06f839e73f, 0x57ccf69d6966cb1cbebb5f7fa0e18946a07a0e85f2cb877b724901ec120b9efa, 0x3122c2ddfc359055b7821d3d1380f3008bb65aa45be6494b58f3caa6e75f23b6, 0x72c24468a64487fe37fa53f7fcf7d6bf32d5f339f7defaa2b44898e8d39b29ef, 0x2a8c4766e64ae3bf829c1cd32983087235300331ec225fa30cd61aedfc60e409, 0x57c03f73b829642e09ef90f595a8bf309254373fafb2ac002f64c704788acdc1, 0x159b8a771909dafbc29bf025bc8f7d7838fb8a6a9ecbdd7a57785516b64d6fe7, 0xce98c26f01b5cf917c444ab27bf3741b5216ef187908f70e11ca9934cbf1b3b, 0x34efd9bacaee9ef927b9be8421f6559c3f825e52457e5ba94abd40195be79cf9, 0xfc0d0702579a455d8ca9b3604ca13f049159947a65653426b356cfec9fc0af9, 0x45a3b9fcb176d18a5caa94ff6de9b55555230dd6b455c22ba1ebb74569a68eb2, 0x53f8bf9e77f38d9c958355eae3cf352589a34e0f577c485e86262dcfb85ff8c0, 0x71027fc1fe13b565ab2c31ba91c5be072ac80edab2493ed19ae7e57d7af581fc, 0x30d636d06631ed06189c4f0a5e194dfd170b8153444732502ab97bbe2ea09039, 0x5ba4dca7a985988489d7b787be5cef9879dfaf1ded7d25b7be9517d488967b0b, 0x4e0ee7c53d8893156b36c35a767741d7c2e833c2304ecdc016f2bff0f138ebda, 0x6c710665868bdb11c4eca777cfabe01694b3c22ca84b159f4195527e9f818ca6],
    M = [0x6d12440470c3c682522a83e02fbcd7603c06b779f2a9b69ac610da94a12bf8d2, 0x390f142be051f56f6c86dc63c3b18849baa99899e284196bd75bad3dae3a9f85, 0x5a7d029dbd46bf0a521a3e24e88fe5b9bc301620fb7b8d668b4677fde0a8c56, 0x644f9f3336409c2ea72e7043f1987ba62361d782dd29a5052f406ed07f03e639, 0x5587f29aa4a35ed11908a437ba7c1b9ff840f00ab9b316a295aa86a1d878b83f, 0x4eb742ef2108fdd6c57bca8c07eec95f43156f583f5a573671eb6e746137a8e3, 0x6eb6f5a09d1350d0a412e9838f3ad99761e54949dd228c2918d18d2abc982c81, 0xac452d7fcce330350ce058aac49078a221c2b82303433e6aff0c524cabae2ae, 0x65ec6b373b6227496c6673f42884c931ea910301a3fcec2697a650775cca3cd5, 0x5b7b8b670ab00d6d3b06c168263a450b23a3e09cd1564f15d857b09328c68c04, 0x5a588ef82f192ca11ec9e36cae9ee8b3ce5be69b7b13d877027bc77719afdd16, 0x1e67df8e0c20e09f6ef0faf081b4924331666b344103adfb2021b4d62401a20a, 0x45033f16bfd74794c5f77627e18424cd6f5d702b7d2afe61f0a35d81b971be65, 0xc5b0424e3d27a5d30dd1c9506ec834c154644beb1ae4bba07671f12cdac677d, 0x29a5ef0aff279cf7294444e96adeefdf05a60923394e68a26cdd49043b2ca74e, 0x1c9c95eff35d9c6cc9fc41a77a0d1c516995ea2fb3d12e98c4b3282e0b000c43, 0x36fff229c80195d21490c0a5ebf32e67fd95e2d31bad7304ee4b3832d232680c, 0x31424fc285a1fef6c0a3babfa7e11f0a1803fc66e29dada3282be265cf2ba212, 0x288a7837a561a9f4ef18cc83de9a2a0273cd143048361b4c76de65867e7a2ef3, 0x6a5681207343d15361f7519437d18a7354182de96738f44399be9d0a0587fa7e, 0x43daf34d01f2e6a9333f131bdd2a97381c760c5e9fe0540fcf7902c3ac05730f, 0x6f26f185c3fdec04129ba41d2d97ac92c3ac72d7f7ee48c99091d6c996df3110, 0x386bcad6c12d1b511c54e4abe3ab21d4d9808504f24955efc062aac85cdb1fb4, 0xd75799ea513ef5a87767e1355faeab2289443c4fed04d55853185130aa05ca7, 0x4cdafa0d4485963baec8ee93852d20957ada922e91ed257f982b36e509f0cefc, 0x33c7d7f18045d882705bfd561de10ef6342205efed3df554bdb98c4af92fc0, 0x62d043c9d0ba572a2aadb07a9c9f8cc1e35706ba46dcea024b89b2128863404b, 0x50d7fe2b5e44ee7c427aede8407a3657befa78b31f17e54a7fa323ae7da348d4, 0x13ee983feb4b92f84d3c3236826567701cbaf84791adbf1442a52a30d9d7c2c1, 0x27c312bafa3a8dc2bf2dc822f7aa5cd91f4f626af1abb7afe837ab45b23f39e, 0x48ac78fc415e2b1faa69f789d31e548310d11a1d54060a305689557a7194dea4, 0x4b318a13b5d87c95946da9018ff9edd9a91d71e3037b4598efd90c799593ab0, 0x6d18fc64835c20eb4320449dbea0e49d17493c20b2a58c215f1a43e4f9eb5222, 0x2f19cb88d92c46d5debf117c22c041906b2975db2cfae47a00b1ea63784073eb, 0x1015bf15cb7e946d6419dd2d754b1ae18025e2de7823cf447aaf5fb4f7713120, 0x68348e85100651c0cbd3266b9d5345a1b3f912ad113b5a77080f557655929e36, 0x981ac4b3d1f3238deae5d99a65a62d68bf84f0144e9a16380ff9bd7fcb1572b, 0x6b16e09309fae85526edcdfa1b636ac2be8da21bf927147e920ff6f53c42125d, 0x716c93e414a6b21b96ac9e88b98dbf250001923447bcaf78f9241eeac84956af, 0x6c1063263e7a8d270a3880055eb40ce2d18509e37690eb31c6a37380c4707627, 0x48637715dbb2d7c05d0407b126868d777055f3196534d1bdec614fa8f0faddf5, 0x4855079cd767cc24e41d6253ea2a345524032c3167e882bc21d1e7e4dd8a57bf, 0x4cf798829b7647eaa788ec480c8459d86d3b6eb0a1409dfef7726d68eed6843a, 0x44855127b3c909c81eed183d2935df3ac173a3b2c0ece1d8a77152e5791ba1ef, 0x4f6e02ede05259a471b1b1b82e8ae539ff09ab4d825ff95b54b8a7e5d23ba9ad, 0x73556e856c9ed21ce5e7ddf0ffcafa361e982ec9af7c9e5e50203f63ddd3b1e7, 0x36fe7aee4d66725390536c674013ca2eb04b8e7a9da3109b9f42de2209adcc60, 0x19397ab95850e8c12364e3f268899fbbabc7b406abc7b64a99ad6549d787dcae, 0x14ae83d120b363f8d05333413c154b05fc3e63958712d6f136225b56c4918227, 0x1bfbafaa8c8a121b034079f73b1ee0c46ec92f62ee86a71d8082bece9336427b, 0x6903f3a9c566b28d1d81794ff1b1c06dda5b852577100ce8ba78e5768007c270, 0x116511daa70115fab82b511d713ff326afcf8aa5b5df6e7bfb4cad07d49f8bea, 0x3bbd45c34b708c67ae965c80a24d8a6cc0a752425fd4560b0295ac740dfb9803, 0x17d4e37582f270e258496f35310e4d729d0d729943817194a240802c15f265b4, 0x602e1e6d99b600c827231800868b7216110462424b9f792311323d2a23461557, 0x52cb0d49a0821e8eb711be1110574e13b30c284c4db2f16459546647009edd6f, 0x2d0b9b9814666bcaa73cb71bfeec147881c00483a1361b0909d3af57794a7120, 0x2a7853d054b438c765a56a254ab917d13fb365d2d6ab9517f28e557be749bf7b, 0x52d06076f138305483a77bdff64e2b5d276f1957325b670534ebbef37f6869a0, 0x58ef4390fc93d9835f4a1f3372496b20a6b4ad29ae3044be0d24ccb9f465e150, 0x4f4e35d3e8dfbcbb39d6e8d4088eb33a44197546cad21298205a7438200cc4e9, 0x5a22002e9b01daa6cd7724a18a63f30feb3f8dd2650d3d5c00d537e4039cc6d, 0x26588cc796c1c63bbbc6b788d4ac5028370bcb0f6c3403b71fc9fb5fe957980f, 0x2a0a6476a740914cccfb562f74fbfb93a99323ed00547dec7bd1b683a9500a5c, 0x5efa8bef4133f5c0039cdb6a8aecd893cc41ad50a1e82ace7055225d4e5be10e, 0x23e7413c5dc2f34307e66c9428f80d430d75f83bf8124e908194df03d3f9b37b, 0x2d39b40708edc7363647a79930a4b688c5e78a7fdc8197a58984f551ccdbf4fc, 0x70a239c031594c79271aeb7f69748e6a0f28692978bdcb1a2ea486d6d919369e, 0x356a2775e656450312e052ba720a06baa06a603a77ca5ca56f0118361cd0e59a, 0x3b6492395a0a3d20ade044f6dabf828c2775c3066894504b1ba80412c82d9d08, 0x4458476437f58c21f6fcdb7587598789dc5db780cacbf6bd54189f5d3026ec02, 0x4daca222606ca627aac1375e25654714f6b25f8b5fe832682ec66906766f787f, 0x5bd24d4ac765f7b76f29a31a6409cd023d21005c8e95e21e91ed095800537701, 0x695e0dc7766f3a5e62e32ad26a605577b9bacbbb37a9896e4a4502ac72f8d950, 0x51b67d3284f47d50a9ca8d498225465c1ba1102d6e66c69f291dfd357bb8d39c, 0x57158755426ec7b6847d363d911b9a24a793adb81b4686cf411e53fa1cf98f1e, 0x4bb9293202ff5209df41240f5462289f298bd0eeb747280da9cb1ae1be01d20, 0x21ebc0eacecd6849d5f62f3fbba9392416a3892e209cb0199bd0561eb74376b5, 0x272f7588080478804135a1ced90de8bd4e853887bb9b5408f9e66e06b923c807, 0x4d5dadeebb978ad36a716f16e21f630603e6d6549ae30146b952d122504e8126, 0x1a398bc677cd333e4a080a32735e15b05a85683d977defd588fe832d4af8a1d3, 0x6a81bb9b8bf99474ee6e3c2d2941d8aeb46c10cf5665c8fd03c8b51ce1235f59, 0xad6efa6da8eb2660284310001b945336e716e339cfaf7022908ae52c0f41def, 0xeb83357d80b5583485482ed2094e576d1fcd89141457e63c275e1ca6cbf368d, 0x21f970b0fd05f3e6acb168a5f5b9cf8e903ac8d721450b55896bc474d9da2f4b, 0x4dfb5255fb660391fef716d2e602c6be1eff59b0fd8d2eb42f8b5307e124f747, 0x1bc845555f1f8d5ea89b49ae06b7263c053f64274efb6815df73403b4a43e653, 0x361aa8f48560479c215d91fd78fd70521b4de7422943e3f2a3087000188be2e, 0x504e409a8039d78ee47c191bfd6ece40c2c4deb48c8753099b12ec62966c313c, 0x9c67387bbf19ae8e7daef50a49647b6635db8bb94da559534626c7323afc63e, 0x661d72ae647f6d8950ca17549056124065b8741995ee04772bf2fd6f47ac3f6a, 0x2276362409570f34699bfacd6731a6bcc49d2884b9d079192cc7f6669e14a708, 0x72cba4013d16290a2c292cd97a34b6c822982775745e6b917a1650894e8a09c1, 0x29faddf0e12cb244633f0b660c2135d360efc210e7f1a0d3f9123d1fdb1bfb58, 0x3e10f26f5b55e8475c4522b261d33a024a9afb0271ab0a4a4eb7fa4d1e87c5c0, 0x33b884dd5aa106779ecba2db4bfeaafddb764866f0c1c328f2b64c2740f425b9, 0x50dfa0b9735f59e8acd158bf855f287919c5d43baae022f3f87df3b5ff5879cb, 0x13449272eb72c7cff1deba65eac50423ab27e3bb2c4deba2966b4ed91b6f36aa, 0x3961aabb09a33e199ff488f177eb7c861009128a27a1f290ca49dd8ad38db071, 0x15965a2374ee9854b248457908c501511166c91f2259935cece3b638b7cb5acf, 0x126275ae25e8dba03aa66986c307afbb05cce4703afac3b3eeac90b9df046ca, 0x221b7e9f752f108cac7348761f817df238b4c7365333ee5d1d2fcd671fc0e26d, 0x4138c2ae01355f0aa7bc9ca415f27014ae8656bfc22cc6fb5cce3e37063d8cd2, 0x27f827745373fc7b2c105bc25d4a5944fade0c6f73c075bb78f5c45807c6f7eb, 0x7228c10e607cb3aa2168de3f97140d87470b041b8ee550b78b969946a5b24caa, 0x3fc44edb7ac8435752d1117ab74f5a7baa4465bd5ae272b800979c3d6f5c7716, 0x3a620f0c894b27f0e8512d6da3fd4d22ed511d4f618e9255c3b4870ff8ab5d00, 0x24be71803e9b93898f48bfbda3f37a462bf94deaf9017f74398bfc288cd9d9d3, 0x48e7a21b04c672187b919659b359b2454087f402869d4dec5fc6209788b83471, 0x3c01ce5d96c18ee2c1fdcba51ab2fde1d5eacff0736777acf969522d9d121e13, 0x3ae86009143be59e72d36b21d37d07952d210ba721f7e78ea8e934811b02d688, 0x26361babe4bc6115bb38090f5dc6b839dbb657e1352da13239b5271f359ff85b, 0x1f79b04ab5f5420710ebd430c8a251b2c3b8d85ff72061cd50b3252b5638e2da, 0xaecb1e44ffb19b698e1b57994f48b90f91d1a2c0cd8608cf5082152c54b78ef, 0x9cff2beb5cf9d16f4cb23be90b143121c45ae947e6cb94496ef527505c73bd9, 0x1042f6b4441aed4ff17a593834996bc9383f766e3ff653c3cdcda14ff2ca1981, 0x90ecd4abd5639a07b046e71791c3f0d7412e704f94680587eaeec608ad8e70d, 0x6f6f5f281d81ff03ada8b31dcd5120e1ec9baaddb56ff0e778f407edd0bab2af, 0x3c4df52a6d1021d3d0dd2b4b0a86e87a73dd0ae157c0bb83db262628ba258fbd, 0x79acbb3df7ad3d4b01c316f2af7b8cda3bced7dbda56a2ed6397e7cfe9368dc, 0x5ce639a6094963b09bd9f4761427241de46834dc349383d297f205bf1c3a29dd]).* from "../poseidon"
}
