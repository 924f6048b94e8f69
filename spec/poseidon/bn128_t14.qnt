// generated by tools/gen_poseidon.py
module bn128_t14 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 14, RP = 70, IDX = 0,
    C = [0x304c29aeb6f1873847879576d30f1f6e8a3ce41082c15c7632df920d6db5164d, 0x2b7380d8b25bca649b3f8bbd0a86ae417109069be27066f46fdd1c7c87d4c40c, 0x4c77200e5494b1cb8a3d334f69ae5bafa7e8775ba1924e563efe591eff302f7, 0x6c0b8966df93080c3ac1576486e61ab0d027637aac41bb35e482bfa10e34fc5, 0x24c73f425903904f40dbff590225f251ce1980a5a5ce2d07ae436e1d090778d7, 0x23df6f6f4448273c745ce53d5d7abb5d26c46724a58d68844d3c3ee45e9b924b, 0x1dc1b1ac389280188e937566071b84bf8189b955d0579b6de5ea8a5136bc2ee9, 0x27f71c5ca774ce20028b8140f144472043917cd4919cff64d848a745bd569180, 0x22b2ee53b302ba2e836b98783e15eb6de9d15a72cc7caa374e61b51dd0d2e2c7, 0x254d85065f87271e86d7b411d6acc280f9ed257c098c9fdb04a2ca4df7c7d766, 0x28620793f378bfe881e098bd2ec62beb46899f37a54abd053cfb0b3bb8d5e754, 0x2c19f26d0836635b04f38fa30ee5c648fa0ea1b202eb0846821acd3c699cf061, 0xf9ed87e9a1ba7ee7c28bfd7ac38ff3ba10849fb04d3322898ba9fe0104fb445, 0xd1deff42263b7cae8a123a1641b7258015476161ab881e1dc20e165b3f04579, 0x5b275e07a9e23f477a9f0e2294227286528ddda6dc74484d76e6aaa714db5a4, 0x1bc255052aed9dce37765bc5a95de779273a96f4bf4013542588b09783ea7fa0, 0xec2286cba99984d38c3dfb80cc08aebf79a4af8ecb98ffc53ec4abef79ea6e8, 0x1b05bef71fc396f1be97c82c082d2f7a4d8b32ecf30c19875409050e3ad35886, 0x16e93c7eed0dc0006958d1824d0dc740b5cfb8c986fffcf1b61d100f29eb69a8, 0x1ac49ebc00e374fc647c65981dd93adb8998d6128b917a6235aa5623ea461282, 0x727bebb845f6d4744d3ddf12c2aaf6f2c2a58e04571ff17adfd905cd57c60f3, 0x1d5659be4fa9e713d3e428c29d34f9ffa9ae0f2aca3474543a20d6254b2f0199, 0x1316e470b54f0dcd5311b6a930347bffdb833901e02448a9419f127f8642fd77, 0x1f7182906e184bd88594ca2589ff849eb2daa30caf8cbf5213ed3fa4747e4581, 0x1319714ecdc7e6bab2b7cf57d8b088094a003f2d4f88edb0d0bd8441b4cef318, 0x88c106fdaeb323a76f94a0912add1b66be216084a42e14bec597248e017d88e, 0xfb8ab5bdc6168d1ad8769225641d0b5eb4ff8fb5c609c661da8ee83ea2a0488, 0x2ddedde404858c4f097c6c8ddb66a00381635c4f155014d3012ad1daf790345e, 0x12d92b7c7a88c9869f79fc61e4ea1c1c881bb1320c0b7787c6437e230b58eda6, 0x21cad521c1abec464be99a77f0c0f792a5aaefa104bb7c036b6c8a405050aa4d, 0x11047fba7de2a553c3ec55251768314400708e617c9bdff33a49663ca2deb319, 0x2904529f4fc0291449c3af18fc9f54722ad2c751620d8f6e0e1f2a1382cac5a7, 0x121fe62c53f68475aa2ccbe28d58aa74a2abebb2658422cd6f145c2662cc96a0, 0xddb1e4ea7a6f367056eedacf793b94a5d37dfa020e655e90711306dc7142d19, 0x268b44875f19ff58a15dd84f4bb64ea8bacc7dfc04d1ad861910fb9942a371ed, 0x9c17828425de5e93c9eeb82d325f770935de8c24584591b744808316590319b, 0x230144d2945f1475376bde7ebb437cd7358d501b9c954f67e06c0a6e90ab3c44, 0x5851a8847cdfbc802889ade3444a577263d93718b2038a05b05bbe890a98891, 0x29b5ad2c6282954ce356aa7c31085eb91b6cc49ec6bf139422c39fa54eff00b4, 0x265fa1838ae2f6d591b8f33deb78d3d7c9ca14014170ff650618b601443be916, 0x1e87cb86588c69bf4f9eded33f03d497c15d61b0e48dd04594df336d8793a23b, 0x24594f115063f9a063ccb1a580e8e9f042526c8ccf6e4bf2a6a273afea167f06, 0x1d052b0dd5715c889194fe17e83763ca6f7bc79a204c4c40073bc8a516f934c8, 0x1e7bb691e67410a24507dd9a5cc323c0f86f97b842bc13ece75d88c800e76049, 0x2b7558d08ab870d30b18663ef9c710f97ce4c49454d34c4bf714be8865b80c76, 0x14fea23fd7fadd53c9faf43e1e30c1e426668d0080e706389f5d44f8d0cdb448, 0xd8f85ff6b797e9a28f4aba6019337412d7a778c3b7d7ffe06d4e20864491add, 0x15d72cb12a8e6d3c9c800f96fdad51cf24527768c9d1334c608084d5a0728cc4, 0x25f75e361c26495bd9e51468aea168f9f097874e562d727f030a8cf5d8c5855a, 0x28623a688686721ccfceda6c9d786832e02654859b8150e21cf036fcc154192c, 0x31e707664a432be639934c2b2daa575750cc41f840459d85a6d6d7d8abbbed, 0xfd555d5513b8c6945f97bb6f3a5d3b1ff2ac2d81a7612f12eedefd222bee1a6, 0x2a1fe11753b7a8d0977038be1276a355857ab20cbe4484b08b150a46c8e392d5, 0x22e7970da1008db5772bcfba19eab45385538e2545fc20d950a60f840d9702a5, 0x1541fec85090b07d8856402ea224e1bb2d8a8a9d1192b9a13dec81b8f69682b2, 0x17c37be74622c608e70301092edc69ebd19d17be9a0d44bc78944a309f221cd5, 0x26032c97bbbb5c920e1208592a4f5246b11d4d78d63aa195ce386285bd0db4dc, 0x2e62d73cc8ace5bc12f5e5aa236ccb730830fda62d6dd935c6a3c420fd9c40eb, 0x2f026a82b15872385978b49c6b6b487659e4f5cc394de6e6ee4aba26a104e229, 0x25d29761cc1e49b6614ac429444e19c070b6a24ba90e7ac726672c7cfc363270, 0x1ba97b48605e1754e7e17d1af7ee496e7750fbe6165caba1529c89cc67f27911, 0x275e5aed25464202f1b713852b4730275b1ce92153d025063e0a15fa077b51c0, 0x2b363e45da3ff37132430409c8008ec685b22ebfe8438df6d3ed4a787a762e65, 0x10ada3d922f994d88afcc40cd9ddf995ae2119961df6b1daebadb62262f43f2a, 0xa39ed164286e39b01282d6519cd022111dbd0ff83ef1556269a63a010083341, 0x1c37d6085793a30c47d92caf677c0ce0caccd2982bcff18078a46b1148cf6310, 0x2552caee804699d4d6ca75bef4a58f7408f97ea307b448a5c40d311298562263, 0x72529903f5a556c8c51e143c97853540a956bd3b9502b1a43fdfdbbc66a5b2c, 0x1a9611de6b18894ad967a44f129f48af82eff2bd0fe40b0bbee63ae07bc8ab76, 0xa014cbedf93be2a924b9aa3253e8f832845a8562d459ac932bc831e042524ce, 0x8642d914725572bbfe7eb7f7b45d917b2d1debd3c44d3636cbd6617c129b24d, 0x9f8138cf03fdd6bd110149c68dce4ded8d45206e8016fc7d3ce6e2b66f743ac, 0x1afaae2609ce7d15c7ae47509767687a58ddc2115367151d6f38d2ee3373016f, 0x1e273929c27ca3f6fe04fbb488fbbc1d945431fa69207100dbccdbe2610fc984, 0x345fe0b8fd130b8e3a3b2379acb34ef73feed141b806c074621a4e051c149a9, 0x17a3a98a7b70a445a3aef301635e8e5e8b277eea1773061eb9c5364f1f76773b, 0xb124c9ab4def719e49619aea6d374bb2bdd842d5b8b84eb55665334c1439170, 0x20acb7a69cfcecd60733426ae5a7472db9b886e2f11369aa9f0f9270440cc1ce, 0x137ac68a78893aa457ce3af79f84a52ed31df7407c5feb5ab4b4d9aab3d479c8, 0x2822e5e8243c20edee38cb142be3e7d7e005d274fc346522f531c1ce0b0560e4, 0x19c53be6b70cb5c79e3e420968b4548b3ee55dcde0ed28075945b2ae8f2331ee, 0x270a91c925ede45c008bdbcb162d9d532717577a01ee948e0a9913ecd2ef9d2b, 0x29ca3e6811d8037a309296a3fadcd7371e87abe21eacb37c8f4ac7c98f1d48a6, 0x2fbe832874e6a044a4e5ee1b63fd7da24910ed685e1dd12444b80c95f959b91b, 0x2b10b943bc42b1306ae3c0c962fac147f158d9e2adfed079f4a8b7cb836e998d, 0x6927353ce97f1a2c75b57aa42d742974a60dcbb13586f9999e52d42b7bca433, 0x8819fee01c9b7f8f1d987fc3f2cc70de7854ace6de0728ba7a0e7a5d721917f, 0x5504a16782e9c95d1870166d6ec853dcd2859d0d4cafa6d320709069e221340, 0xa6c9c3c69e558408931240885e4edf91e5448230aa020a59721e94ee19c4b10, 0x1638a245b63546e931ee796d3ad7f8fdb1f7373169833aa6ddd4ca0d3499693d, 0x12b5ab3d45071d84539be772c9f468c8cd6efef151a3f5b2b52b86c47c9480da, 0x2f9d04c7aaf854180b7c9943a86ab766f1c61f8265bffb8477263b59999a4ee4, 0x11709a242657e17727f2429c6736ed1bf6c756dbba899aa4eae5ecb6c845562d, 0x29668f5f5c4a3246bc3a86f22132fc0cfc625666f99e640dea0e1da7a9b5670, 0x2b613d4804feabde47da71f26e13d61428f2781b9ce1fde088902decf515f322, 0x25f3892eb57862f0087557ea0e93867d2bcc0220f7da2bc073ca276d750ad83a, 0x2103f7a5214f40e2ff64474583cce0914d2e9a4efc022f07ce5cbd791f543271, 0x14a8711072a8aeb4e3c72bf7685120f2325b64f906e2c1ee31f6afad6c815138, 0x2d8200110c740dd51bd22f4267cab97934e5adb86daf1c2f0405c2781bda7ebf, 0x5b299e405131bb5631072396c5b57cb87f50d070f196533bc3f0506c8ff218b, 0x2595e4e223f843dd01b550c5532cfdc51931fdc340a11cad1019fde0843cec87, 0x1ba92bc78f26df3148da920c7b4084f015ee164662a5abb3c94acf36f78a957e, 0x92caefded5f804924ccf1e63543d61dfd570007a1052abb764983233cc63e4b, 0x1c0dfade3ec3d45119238c75c700b826a422ee02f45431ec110449f1f75675b7, 0x1da05eac4674e99b9546876461369aca20e289e67d052cce10fbf418b0a0442b, 0x5086928cbd0d49403bf4ad6f4c626cbd48c1d9c7a22957306f0bddce9da919b, 0x1d32f71e4dd99385a2929a02b92912085173b482548e1bc06efb3ad96fa31170, 0x18fe8945c081f1a9937e20359578cbdb19343ad0ac50435f26dc8193cdeadbf6, 0xc27a1469d7c1bb60c6923587a81bfa0517587a3b0d3356826a45c3ac8afd4d4, 0x1a0bcdb274bad54e1c3eca1e4e14eaed3bdafb0846b4fdb41c0cbc6efa4900c7, 0x18c15a3bfe80e4883601664288df62171afead7dcaeec0fbd959b3e7c6a8f768, 0x23af2addfcecd8cf403bee8c4dca81fb7c978faf147c990f260f115b2d3bc8f5, 0x186efb35a6b23d406efc6237e175dae02de9c44e5dc2897d5633cfff571c939b, 0xab171e95c605c6d5361ffd31e76ff8e4eb82ff2da56d659c66902e9d392879d, 0x1226226d5541e6086fb775843787ca537dba5a9684ba87ec0de592cfd20e88b0, 0x246c77e6d2858a34a3ca29d3597611adf328a4a2211f74d5fd04dceca9830c8e, 0xd7495cdf807ac3d6184c18dd9e858b250fbb37c11a29e6291c12540d5e2bda6, 0x230853ec47ed72d1ffff83abef03b5ff7678f2e104b9296d8d29430140e89702, 0x141d86088c6316ce0dc3a560961a50f0769cb7de216689077cf65c6245ee76a9, 0x1fd4fda571ea5db50bf9a375b7e83ee18dbedc37914b06646014a50092a81e26, 0x597cc1432a973d83896fabe991e7c2a537045f9a8ac612ac766a37bcaf9c9da, 0x16dc93239b74eab89823aafd91397dea7a5c2fea07e12e562afe2a94e7f33cba, 0x15d73eeee6d48102a0818cfe70ab0f2add92ebb7c8d847922aaef02054280414, 0x227c8330e2d7a7de907eebe9e82f7264c16de97fb23f4bc0d563a7874bcbf578, 0x1b952fa7b0d9dc8e9f3c52a957468f492a2aad45cb2d4a5037a474a6b3231afe, 0x2dfe192bbde5da75c175ac3265857bce905aa7ecc585ad20f4997f67a5042e44, 0x18ce1b58bd3f2bc554b746e90f188a6705f842be29f85b6a672309909fec2156, 0x146d5f383b2efb9962e773afa4b086c164b0aa5306e537745f15680a85f6a1b4, 0x5130082aea77203ab1e2819d4704f0e9d723d06c4579b1bcff7b9e70cf1cb26, 0x122d2c1c48550ade6c88d3498d7ba8395d44776319f12648c14cacbada6cc30, 0x2be0dfc2a9ec2844a58563f8f0115944e9a39a8fbccfc3d79830f4a494a429c, 0x2362b83ecd5ac86a908533a876ca1738c844425822fd0f5e0646c965e94cd99, 0x27343a0ca83b7cbf4cd78fec7c2bfbd6452859fb0f7b5c14f62391a8fbb813f7, 0x25f66e4c31aad3d3e8f8940302a771de770c855cb7fce3fb170162449950059c, 0x1728135861261e3f1995b078af0a0f1236eb457fc6201c5aceb8c93f87217b63, 0x153b4d75654c5fe604fa2fc96bbb6a0ef1240c8281f8c0b6432bf1a529f50eba, 0x1ef294fe797568f55253c2f93c4a32ab6937a1332bb1c412b8cc15e74b3b8ef8, 0x2a5f302c49a8c8fd6e4dce1e265bc6ec0eef34cc46136f9cca664273ac3d8eaa, 0x23215a1413633606a8c8f22ba642bcaa8fb559f7cd322cb08aae796735bd5270, 0x1329f0d6fa9d80e536ed120858dae6e51376624c7daae3ba79795a5525a6c484, 0x2664e9a98faf74e1416aa645b64589ddecb3bc2c85f9a89688af7db70ec60285, 0x305d940fdda525f49e235ae6d25f9d4471e396e7bc3a133aeece1e56eeaa7382, 0x1271af6fd004b867484dea1dd43cbb5d58d731dac6de8dbfbb3026c17331ea9a, 0x231fd9e11aa688e3312731a6a027ecc1331516d00d7e30788c63521aa9326251, 0xe19fcb863828bab9d152e0504ce09fa61faa3e0a23c02480ef6f866655d575e, 0x13030654176b06afcb611203a2369a442e863b3c0d1c88b89cd4c7fdf4f9ef06, 0x1fcd60b9a522c7405763bcc95462d77c0a36b4e952c461bb2eebf1e842854559, 0x1bc1cc4f122eca17b951451c773472f0a3f6a57c185319ce1d2de0d19ba1f21a, 0x2c0318563dbf99ae636bc012bf310175cabb7663f2a6764cfc3d67d186a21f7, 0x1cbb1a2a490b61176f9045b4b0b60ec03f12b15b30555a3932aa3c1ffea6b3b7, 0x6796f10e9ba669dff948e86fd462dc5cd95ba8079b02c2b2b4ad1e62fa37de, 0x7e6a8fe4a4397ba709215c5ab272f3c541465cbd8e43653dce2f59cdef8dee5, 0x284e093c985657bebe96bd671120c92995bdbd2c991cdd4909309cc3722b5ed3, 0xd2071dadfd269cea8740cc0299323cb6e1a64bf123dfe1af98a1787a6ca3c04, 0x1945b6f5b9cf94b95d9341fbb6b8b4b7b461b96386c1e9cf3c7c4e3b2f083550, 0x1576a69840a50e47e5ab4f21ab39d53190038594ec599700415e12c4692b4678, 0x1d9f7484194e9043958d6ee7c8a552c0d25f9587e66cd899d2cf029179641675, 0x1506003f39bbe412e1a0a4f2a57db29e29af2ab61006382f6a1d4ebb8c39437b, 0x2245f77edf9eb3e22d647853698be8a2783facf92b14b8392e7368a459da62d5, 0x1897e74c6f1bf3139060eb8049b95328fff4e9db9260eada1e55346dbbdece3b, 0x209ff86085273e680ced957d0e4e165c78bd9670a24969e83ae8b0db12638c3a, 0x622ee9d23b0c61b05845b23853e40d88d73593ab851e8be3b338ca7ce8cf5af, 0x2ae0659e9e749a47e3e0d244862ccf5fd6fd6e1af0b28894b4ec72940774bd9b, 0x2c31714e2c67c045454653f1bdfa47db03928439d44e321232023ff4d2fa0fa, 0x1c4a827874bb4a455d790cd7a86672634038bafb12d3b8954cf3a3faa87ffae1, 0x134da7e19243eeb08e0f7e68eaba7641e98ec35f8ab77f134dd10a8adc8499af, 0x15f65369e51155ed42a0d50c3479d7b880cff87e81765a97ce8ad28b9de6725f, 0x1081dcae10fd7fec12a3328a60678c2d760133860cf30f5e45a0fff5ba95fb14, 0x28206b5cd44cdb7bf177a2e3d60ae385e3ab2c7c8ef9daa9b3dae35fbb992678, 0x5d9355306abea7a1494b4875f06fa9f81f4fb0b85524aa61b03aa053baf43aa, 0x869ae8683287423383a2317ce58fcf88433bb546675d6971ca292a0f00aaf33, 0xb07d8566ac61df9c2fabe8d4062d8fe46bddd15d08734a4eedeb91dc9873891, 0x25dd57a9bee5a30ef1291f0aca75d55f20d11f8e0f2e69704013830f26c22b5, 0x1c9e2eee7d79b79e19a01f617f37eb8fdfbe0420f3c5fec58491ff136b459f2d, 0x1a053731cddfbf2d58d723ba5d50f874125755c8b2c236b11a2fae3eb15d154d, 0x109dd67f06c490940396df6410636f6535ea7f2b8eb9baf8e3be3ae1da12b374, 0x1b8e939a3cfb76056a4793e85b1b42fd38059856c1a434ae7ec90be0407f80ff, 0x1bb4549873191701fc74397465ac489ac5adf990710f9ae59fc7685c489f2e31, 0xd971a30765153417cb648298e392f4f61defca06a05b4e423b97e45c8ce15e9, 0x2c58f7231642e86db82dc34a11ace0e87c24f9a1bb8e9cd926e073f74a96a3e5, 0x1797d37d7ee35e50dac62ab43434d3c103c7442b00891dd3f8bf0dad7d7f44a4, 0x147b1cf0b44efb08f03bc4924877bf51ef5f7a4cf15e1adc57253a33f006c607, 0x97667a035e3b304702995a8e51a212813913fb94c8db886c6c4fadd5261b744, 0x1d653ae96dc57c1bfec7cc425b328e4f4a7e017621b6f528188d2fbc5ac8460, 0x1b39cd9f113388364c77f755bf1fa42b706870d61dbdc416838f26459f4a2630, 0x25cbdefd82649ce519688b4e4f853341c11e14eca83b70c6bd27efda86352931, 0x42289f519c5c7e22728b74ca92afa8ce890cedc07a70547fdb8fb7e467c8466, 0x1cf966e94f1d7c69613fe1871f2704d239e1804179dc7ed1301dadb0e10ee728, 0x2804d255b571b9ab3f54011b69fefc0772db77f529cefe27eb0acf1e4373511c, 0x2b274b23b66d9d561d057bdb7ad38a96341b953943a4bb361ac57f816b44ab98, 0x1637057ba7c5dfba78dd8e38a2e3a8a4141ddc2dfb41598923f66b5ef886cb71, 0x1e55cde5864bea5d60d7c1ed34e6036c007d76d91d0929e81e1929f6305322b6, 0x1690e994aa14899d93ff21ab98ffcae9692d7e3f00ca258684268c06b7c80632, 0x27df430f854092fea91a08eb7e40570382563b16c78c12b8e839e7e7e3d723f3, 0x262c27865c6ccb2920d7a8d7ef181136cd5f7788cae7ab9be23c7498d23d9e0f, 0x14d8d4ec65500428ebac44b267b322e41d5cbdcabc277ecdc3cee7838b0877a1, 0x1d2766558195a3ae3031bbfd302439b08cc85d608bbe36e6d8c9aeea2ea0b66d, 0x11c2be8af313169515f4a855d0d71e80eb6167bb88d3533b70f818eb0c945cc8, 0x20c9692f4a3fadfd0ae3d2f7a78ea300a4417696e321503b0b6aeaebae7e4549, 0x28cd4e2e7c1f3ec3343e44f6cb1786c25dff23decb785302820d0dbeed3302bc, 0x11f34dd9733bd3d0822c7635dc976b2cc2f6707eaf4178561ddc5d4f563a27e4, 0x2d6c790965582a05f8e3abfd1e069e414a1df5d86a52db0fb57de9201d9b964, 0x305025e1c03aaa1a9b43123fb9f35399c6edcf30dff7398320a78bda920b1ba9, 0x1f9a91691a4a3aa765c7303f4b7ab8ccacd4d834f5c8e680687053eac7b86323, 0x3f134e018dad8b80ccb8dd780c808d3fbb1eb2222c364a0a3129048259d29dc, 0x2d9cdc3b3ca2467c237dee666f37b7e2dc58dbc59e0be477248961efd6782b20, 0xf437d8f3cc4dc487e8971b038a11324b7a984c85cbf698d2823b2c3b71f485b, 0x12413aa63de038cc0427b1acbd24ee2ce6cd19b37149c6ca761504fc1e39904f, 0x1e42cc0b2b4bf580173dfac63ba6210d195e078880467cdad8774980a186756f, 0x8d62b4ece35499b60d1beca4f23a9c3d39bd6798dd9818f95a9f02e70757ac5, 0x2924988422b3cf13ee98c513f4fe249c3c3fb944805288b50864c26c2e398875, 0xa797e9016f8f52786057f1b2a3cf50fe20f1fcd98346a958e4bc1c50ee8b685, 0x63d8222baf254dad1667f6bdb24c860ea17a33121763908e8ab1e9c3ea48fa8, 0x1815d8e9cdcb9c3b7d19759c898b078a33dfa3a38f3c22f1ff4550363603cbb6, 0x100541e3ea8bf5921eb66951943b5fb44530076330d19c6ccc49d5fedef81589, 0x13ed4a0f7d5a26c05266535f8eeb1eca63e346fd7ef20db88edd1d1b05ac1fec, 0x217fb49a601d07a6e772122074f7bae116fe2061315966ee39e7b3cb4f51e2db, 0x1eb9080e0f7bb6f01b3b05f9c60c62e0bfa768276e9e59eeaeb63bbf06f5e127, 0x211d02e9d453de842c6e2744d5ce6557a3faa6467cb923755d543abfd302094, 0xcbd5f7cb609c7e5adcdbb25f6f0cb74da626a4254afa409b9d2c1961b4dd4b5, 0x13ec6d0550258fa91057b0dc06d8f00a47d40c05aa124dcd1124c59f4e22635a, 0x1258ca1e77cf9d67a8ba02d1f665bb405b388553a5cd9d6c43037d0824ac4bd2, 0x28c5a7824391b529e9adb062d3983826ee1e7bbbdcf2050aa24045b2d5acf8ef, 0x19cf73a54ab1f2e4421cf88acba44776de1741a0b317cb5e1e2012df57287bae, 0x3011455d11c4a1433e6a9f6ea9ac559527d7a17a0191686971b7836a3170731a, 0x17b7373ac5c3f3e20d71b349aff449c73d41f34f1d008140ed5829cb265548e7, 0x204a96353538fe08da8072b3fd97d64b245e064d9bc901f0c0a18efbaae0995c, 0x285a72987d0f0f228cc694d10def85d22ba358e744825522182daafb14f4c258, 0x2474bb9f91f6f5401fabbce0f102f974cdd061a5e57a782d5b239cf7f8925a96, 0x1b45841eab52a5105aaa42cf7f6d8acec5c06ea8a8b0ee13ed691477054cf5a4, 0xa3a4b8bc77d458c8eb26352e92b685e00602a68dd4a9f13cac10e88ce972ce9, 0x2cab4c359d890a1dec1881d24dfdbff978218003735a10392cbf6049d5cd382b, 0xd0fd0694da677f99a809f785ee1ef067751322c28613929a8fb7249d3e6787d, 0x29e4e09d975b50201c40a8bb9750d31f30ca3601e110d17bb21c5ff860727a50, 0x115efe78f8b2a72e8a213c24b1f5c6efe80f63470439e678af721a0f04221370, 0x29b3ccdf150428583feaa28461cf1ff1a4e49aa92f90c6f720ee2fa89b589031, 0x2eb754990f68975867e35e9589436414b88a25440bdc0886623f1a568f516077, 0x989335bcfd41020ca856ccf61af50321eb1d21ce04d1581db0c62043fa209b6, 0x208a9857b859c3f620169057519050719043b2d42c669ffd4b681a1e52159150, 0xe7f8469184f41a9eec6990459221b111b01c5dc0fad09a985e31576e0000410, 0x25dafa7bc6be0a1f9fd21cbd71a64e56bfa46fc7f27b2a7b135904a0f7672e6c, 0x3da2dc2049d07c4d185a16a29800f785bcf6228cc891f1ce30156fb3175ca1a, 0x47b5ff19a973402f4621e51ff3146513505687f720e2ec080b6e44c46881d3a, 0x299c01d6095a1d660d4e001a6821f800e50efa1366c25656d144cec3b0294c65, 0x1662d7fa007ea31e89e692ebf522794e2d106cd844f8f0dd5d0b5f59759e44d6, 0xfe4cd065090dfef40d074039bd06228c925c77bced4b25c6eb2985ea6da5e6, 0x282e49e314c31b6d337f417e9da54ac7b686fa6cfc1fae8b58273353be658678, 0xe6cd752537a9180b86fcbb5ba8571814c7780b2e486697b18a8dc3a159d9fbf, 0xcc70cf2866f123a2cdf2cb9e8a238813b0112de364fde0552d38062320bda5e, 0x1aca51b94c7479850d3f67d07a710f55ed784d4cbbef6f045422b80b438e5d07, 0x2670a1cc090bfb1db16c528c1ad51478b58db66adb1ebbbcbfe69f5ae47ca844, 0x144b566d3667faf0eae3ea9c8c0e4be553a7917bb6f8c45938036611327559b2, 0x27b0264ff594fece22cd26e6092542ed28851a75d1f15310a4091bdbfed36fcd, 0x1f608a88e8d2dc5bb6cc91be2f474eac4c3a659e0bdd373f9c6dfde4d6a0add7, 0x122d0509d2508c60e8a2a6a83f770f27d24aa528a40427db069093fe8e78a064, 0x15ea3777f61dd2f8d4860b202d3f4eddad0f6a5ac5089705be0ed60135fd988, 0xf0f1c69e52b1e410d49a46939eedbd48129808923ef9f05de025f993741a4b5, 0x16dbd963fa198fc9a3c230caab4580b34d25c6223d611351c9657702e5168545, 0x1d85653beac61609f08d4a988b85c581a5b574c269821e66b2815b31521285c, 0x9ff09f0cc9a53c87802865299520b8639f59b6a5caf06cb80cc80fe960950f3, 0x650ae88754b4ed48d3520aa7771f4ff9ee40280b85d9e767d3e53ced36ae0d3, 0x91741b2a425d5a56b2f914bcfca7699e385c734bba606d394261b6367b10263, 0x2ef48108bbc4c7b67f1d00e045eb30906ede0032a9838e68067580f22c15a386, 0x11bda846a5e5868bfff65e9331e0bec764a72dba5549ac66179a4524fbd6e3ab, 0x2b6b3bc942da684a5812478dcee5f2bc0138395cbbd0a05ac6b04b6e9df0826e, 0xe117fc5897aa6d7ce2025a574c8e4f1651fd95ff1e63c32df1fad41f2830473, 0xd285c64565bc502acdaea74795a0a64a46a148b904ef986a7aeb3a9e6dc56d2, 0x98141a57c9c6b72eaa0bcdc98f203359137fba1bde27afa94181d755823c723, 0x1d113cfff2cdf12cf8353701521ff920e8d10489f477d57536b59c600812a023, 0x13bf98387944aed3e268d0ad15b281a82b280fd924b8d4eb43a05b23e0f36ebd, 0x1c84249a8cecd1361a4b66b6d1911635ade640f4981ace2cdc4bb85ae7199173, 0x1888f869addf2a91230bea0393ec80b7cfb4a4cbe7a2a049f74401e7479fe4aa, 0x257341d8632255d76f29cd7b33d890b0c54b0e97b8cd6897886b6e389a8d2305, 0x1df9bbfb49acc99c43203403c99923a6fd9c8bf7f9aa6cbb91bd1a91aa4d7e92, 0x2a288ce4b8fed1b94cbd37adc8b6f814a3254feb0d0bc687213c1077648819d4, 0x23dba7c996de6b3c227c23a70785079fd4232a17f19d0311d561395d993a4bae, 0x199231edf22878bf880df305412ffd8a3ce6a555b1e7e81c7c3c72aa02b358cc, 0x2cc3d9d1107e7a5fa6aa9497994316294c7d31898d80ecc3b782573d81932873, 0x1847e8e68d4c183f3094888dea15007a6bc6b35daf79decc9f0ce88b88dc3c65, 0x1ea791dbd9aaa3d2ad56e590aa7344514e45684ea3201dc9bba200a046c3b896, 0xa38e9e4712de317a533e3c929d6ce749307e8849137e3ebfa2a4d0bf6c080cf, 0x2de42647c0232f7870c412596bacebda08bf27fe124e16f1585cfa9d1f61bdb, 0x208c7a7f4dbd4c02d11bb6840a3fd96ab78ff9623cd0a39e3df3accc03fb5dcb, 0xddd22d2c7a22798707187615a91f9130a66d2c0d7d7a015fdc35a68deb8e388, 0x2a90b2d586a6c041362cf2667d131fe7c426075013c33923b0c62e3ffa7360cb, 0x298ab2e353df6ba628421948a02952b2afda68c463bfa36050a7c1418a026643, 0x8da6d2ca619829672809813a61cc5315f02460d8b1757dc014f947b729e5803, 0x65c9c7619f718cded1a784f0373fffea114170310b3105e2628eed621a2561c, 0x25ceb8bfda01132364f07044c33afc4d14755edd1bd6502528c367497c2e1db3, 0x2facc79173aa070593579d64b0f35841f65cda3b47c4ae4e675113a9eaba231, 0x92f157ad123e65d991404a2704a91b23bcebfde142a1e20d88e13e8fdc599df, 0x2e47ea8e1bb77292c06ec09029c1d1245949fe39de87f4101338417dd3f72bf3, 0x1e39369419393b8ffa389a34392449d953a992d7afb0ba34af8f2159f1396536, 0xace46ad0dfcc316211a507be4e87127b2180a16b2444fa8917459961c030590, 0x2e25fe7c19d848ac780af912aa4299cd59a55cf679625fffe9c14d4fb994eedf, 0x1d8d31d97fb5ebe90c25ab3fb433f8a82ba9fbb4443af83c7549d2b7688c17e, 0x29561c80c9527ae48a5f605db61e69b0892e43741f27e38715ebe14554776c2, 0x19104cc8e39a77156a55aeacb90058a42b001e74298de81f2d18cc617760db08, 0x1cb2e1388605bdd6583aa13a6eaeb2fc9ecde1337ade0e56f3e2e3e3f81e25f8, 0x164b7c0e87b3e37cd027652e2fef38b0897675ad34baac7a777a78a5928660fa, 0x3a2c5c52f34b9d603addb63238347c204e9bb1e65fed2b2d8cd09428ccb0601, 0x143107befa4803b1a04269d030233f68d927676832011c7512bbfe2b22c35785, 0x606ce26a1a3b7d8bcfadf00f30d4ff0dfcbfeb1437ea0fb35f918510b1c37c8, 0x24cf1337b43c827ea97633e387c7948df90a3c42a8f7f27a1efa5e079036f982, 0x1c26028b3ff7ab73dd2cc99df0ac3caae4a9f81be4091ac7fae5767e4436da87, 0x1e0e4d243dd982c611637d510f43ff32874ea6680c88246a053121fa0e302a8f, 0x404f39181657306e1eae8acd510212389713698606b3c8c656b26cd4f2bb73, 0x1138aa24e42bc883993d4c5f6eb785a8c59cb7bb1200186b5193afbe1c2ae478, 0x23b126fcde502df569a036f9d65e651805ca040b0e017355c6aa990e1f48e8a6, 0x2e761239a389a531493fa699dccb3d86125533a4608688ad2f159278dcac908, 0x18e087059de0eaadb5e3c5c4b9279cd76dc3f6d8a0d060558b19c3cfded6a6d2, 0x27364f27770f58b6dba3d3f1666e504aa45e867b30aee59144a53cb281528965, 0xfe00ce1679e3aa5f4d6b7b80e8e2022bc2f8045eb43a4f8fe9f04cd4eaee94e, 0x1afede9489f5ab94671d20d1ab49a5ae0aeea4fa29d38ee212e0a9cafaf5de05, 0x2fdb0d7e75731eda93fc931e8d8f59762e0cbe15bcf6e0a3ee1da0e899546a50, 0xb74792ad4e5624f94cdaf5228d8f7b7641e759a25ef4e30e802e3076ad09007, 0x407950b2453c974580b9ba314aebd49d89052a1d8eb2a606fadb4052f2d9ddd, 0x29b8d1ec888f27ddb52f8e366cb07a3829a821bfd57296df667b49699e249593, 0x25d0c20a9006bbabd4f5160fa9eabc648c7e41552a0762b5d350cc151d6c4020, 0x2f3540ade2e57f26ce36acdbbb4198cf0a17fcf04c6c926bc3283a11a661df51, 0x14695ff8da20904e07fef545ab104fdf0dcbaf5b69a3b83485048a0057e58312, 0x16c7f28531a7dc674e8f240e35d75b08c6673995a46ba746bc718f42912ff69a, 0x2e2c2616f6bc0201be908941c83c38dd7cf79c47805ff93bd640ebc552c4ca0a, 0x63bca2d89100a11021bec39f11590ec08488206e016257061ccfbc613357060, 0xf8c50aba399310f30c201d7be6990a7b5061d52e1dec5dfb59f69ec93d7af9f, 0x10b6435421a2edb44d8045a51332b050f137e26b37d4298dcc33213225bf1452, 0xda21a08e5f73a231b94e20dc513f2681bb15ad12f33bae3d5f71a4c0ecc97fc, 0x238fad1f6960d619947d509d97efddb3e2ef3e30f18a26642e282864a7ddb426, 0xeb8c17eed2e330329401b5ba5966bbace115ccc893423b26f224fba2af1179f, 0x197f1200a29e7fcf3537b187554dce9edd225cbbd8031120c57fda9a2a2d6cd7, 0x7e59ef9a273220fb6709ec8d1b831069b32169caa98e7f32affa732b55b827, 0x8798f412ce2aecaa57a737829556e5c05bea822ce81f856f9cc095c6ba65747, 0x2c43f8adcc2b39e262c252c3309e5ffbd6ed736bc0ed1e45973aaf52f7e0063f, 0x8c1d017bcf1edd53e4dddc010f9b9979f7a0d0dc3fed34dbbd8b0efc49d196c, 0x21ed2f1797b5183a2719257ff3eb1d3bfa896e6119929dfde80fa34197627222, 0x286886b6067d627947891e65b36f8d4b7c81c5c716ad95ff44e911b0341eb0c4, 0x1c0ae38a58b0cd3e5df96c8e5fae5f9b19b7ac5dcb839edc4213a5fa96c95f60, 0x543f286b8254edc3f5323bf6ca470ab50eaff46a75e096ea9a215508aa4f7cc, 0x25bcdafb4d5b6dd773d7b3cfcba40f8cc8db7675bc541d187c21537fc2c0a340, 0x28a81071826eb4f16615964306aa7b1addd0336e6158b30dec2773dc4fe7a662, 0xb2ae92d96d1937e5d1b42c830388254dd27e60d512fe8c417b85fca8c9b03a6, 0x11aeb340ffe89088b98a4fee7204585d7db8423fddb1b41064b785aad0a2878a, 0x14157e2dab04208eee16daa67f355bdb04f7014036d3c7586cbdcc6c1430b82d, 0x154035799252f5d335eb15af6bef9e12d6f37e33b43d4c099e89e518a4187c42, 0x145ee4885281330b255068756690f8af3c52ffe3a03c6f53c101a841a7ecaf83, 0x8c60b040006eac8f019307afdeb00aa9314bb8306b8fa60f8c1434c00d2ca8b, 0x1e0aabe003e834900958a13b47914ac4cf8f89509c001c7f8ffefa499f31800f, 0x12a0d132f615b78b0777aa9136e679b8dd334137027ffe5ebb281214ebbe4a83, 0x3a7748c591ab7a91d8f25859e06e77c66cc0088f2bab04e919508933e84d98b, 0x2815a7d428f1abfa2ddd7b67c2e916e3cc8b2d6950739f514684e8115f0ef0fc, 0x2a4e69d67391052f8e2d9f09cf09b0f25261bfc0b0aa208b1532e2eb2573253b, 0x28f42bb5e8069754d72b97f2c08ba8acea2ef1c21b3aad642c5cb04dcb4cee6d, 0x20fb72c032f2cdb3caae7ff84a3892097053ad8c2ee097fce6b247450ecc3987, 0x1369c95af38ec514dda67ed9ea6eb0e18e0e1137f70e869528e37bed1876859d, 0x1c021f2449f25dc718673ea93e652012b14958fd9b0268c30fef793429b73e2a, 0xae3815ea26af43c33567e41f83e305d0179a059f89a228e824db1684c54964e, 0x5bd2be31565865033475b0e553be2f47c0f7b1216f739365469174f67f8f982, 0x2368da2866a5dd17d187564fbc2a4ffe8682afe7140a9d957046c2bda1a0f669, 0x213784bff6ef1d44d08cb7c33602666a4002aeae491dd58196b0bc9d731e3bfa, 0x1dc824be3362a184ee8ed97489333ad2c5ec8ac80fc29cb1a3fe93724eb5985d, 0x255b2a1c202a2851250ab9d1f41427e8031b637aee29ff6a41d2f16e235e5d2d, 0xc7af6613e1ec2e006780fef74b37a1039dfe29c76f6374c811ca923962f1de2, 0x15536861d874742904cbc356a66f3033a43306e67c3379b3c397b8d73979713, 0x2549c7bfad45cb19310828ccbd3b5b80325893f3f537bf6900b37d96cc10262b, 0x17853e6a2be92b752149605e938c59ed5b98a51b5e298dbf0a3f42e785ec611c, 0x22fb9187e826fbc34056155b64241d195a021c199bce96140c45a066b755ed04, 0xe01dbb02d04ded9921511ee0b41d422a47df1acfa85cce84341b3a1a415173e, 0x13ee7aef873f8a2b2d7612cd2ceb88694d9dadad37917e8d323cbf7ff85dbf13, 0x6728405a1d96e7e9121047c6e9e4fa91965cd569b8a55c98acaa8c7990586e0, 0x1b8d4c1d90f139199df8da04f6d098b38e8f08ff0815c7c50ec70f0f221d6b86, 0x1bf50f97a290f53dd99387bc9c3ffdfe2f878bb0ff7b1e4731dc38f8806d469b, 0x708564cc6c399de0e3b96dcc06ef877f839229aaaea1526527b8abb7e8a1c72, 0x61cf4c2260afe2472093e2b18d5b7a63e023a0dd2332fc11cb9c77925369e14, 0xc1012dd2f4168a4ee6c8db5c7b51c8f38934e9ec835d0fd12bac1afd23bffa9, 0x10d2c7b272f6b1d02160bd78a9fbf556fca6cd21c7bc86e23abd7497786ad20, 0x19a7dec681440da95b1866760bb8a48a17b491f71a61bd48cb7ecd9f0cf2a2c3, 0x2fea37daf7c788558782a2d4636bc8b12a021d680655e16d44194e88a2846e1d, 0x93181302b44dfbc064feb7ef479d1788c5b9c6e76f00247bcc1f4f28d87364e, 0xd562f7dcc8b1a57b47e7316c2832470447d46b1a05d15fb87d3550d52e310b4, 0x31d768025b65139dea57c8234259faafe28a1a4add5f4de09fef5b0c53a800a, 0xc8c252ec1046f288ec63ba23dcac68b914795281ee2dfce5c3128afc6799391, 0x249923ae3dad26470f071c56d93ea8a4c45d9ecbc335c18355e0c8961a8f37b5, 0x18feddafc99611ece003ae06d7ed3ca7d69a7ccd5adce377b9eddae5df20a67a, 0x1d64afdfde99be84d37faeb3740ab4844d5db1798346e3e220e85424e4e0318, 0xfb8de6ca433e586c7b5e1cb0a380769e6bcecf78ae4d9e1c09879fd9e28247b, 0xd5b17c9447052c898a2f4bb21ed827eb9d36eac34e49bbbe1830bda935f038b, 0xf2b7d51ec7ea6577b2e733f03525ef1e8fec6bd4f25c1f579f7f655ba9327d3, 0x2b23d5be39199976493c64732ab655589e05532a79a5197d24e046c281c0dd1e, 0x191eb6a33f3e80fbd227fbdc436fb8b1e3aa37b03617a7c87587a2cb068fb2a2, 0xbd19b84791c746fd5b810f68f10ce1f514ece00a0e7749537c10844ffca11ea, 0x25a91a2714a79060f77b2503f0d3070fbdbbd187d34d6097ae283bcbf4d65c0b, 0x2e507aff9f00820e21752e75690c619b8a03b1e2699ec7bc0bd550fac9f6313b, 0xb0b051cf9526c4019612dd0fd2afe774a8b1e828db2e42fadaed6d26d51ea17, 0x156b4cc0466b953f9f389eff9a1c7e261e902ac034bd9d285559e9c58eb5129f, 0x2f8887dc7c16c111475131c409f22cdab1440eea684fb76148fac7f33aea4e9, 0x1f3a7c2e46bd4fc1786dd949ded2e2d33ee5fbd53130f87235230209818346b3, 0x1102546f1c65fb38431152174613608dfd17564aeae1764f1570f72bbf479950, 0xcb2b67c1f4aeebf54e927ef903fc6aa0e6acf0d4b1427040e981a102d15f84, 0x16f7924c29a61d1790d23da54fa4dcaaf1e264e46d6882c85d4fbd86f2b97c2f, 0x1a8977e7f9f883320104bccaba7b6920d4fb2b3e15d5134184c8c06ffa9cbb5c, 0x38dde93666a06ff6df51857a40218b6c34f368e7bcc52d4504b85a9eea9994, 0x9af8b7ec74f96740f8eda9f69ea72c08f5e2311e78c0633bff78876646d6ec1, 0xf06e7643fa6fd0b016904bb1234855dae0604472aa1f9e7b12b0ef594780f5a, 0x10ffb0f0d659b17cab58b2e7491212a734d45b41ddab889beb65518cc2b2a3a3, 0x8393e0581bef9db272b5512d3d6ac16289a6d51a7e8fee8f0ca854b7e7968c9, 0xcd919f11e3940afd0fe3b7d687ed7117b40100f89a60ba1fc7cf743962cf97d, 0x176cd2d5dd5039afe4f9c9af84f1920de7c83f1d663a3dccefaac3c0acefa46d, 0x1ccf20b79ddc78dc632e41c11e537e599b418d4cb9ab88a74101a27a668cd46a, 0x1f8cb61ed38061411c750acb4c313d2fd167fbadc588a14fe6a30dac6719a12a, 0x2de3744ef2d7114fd6bb58fb03d0969bbe92fbf4db49b636a2a48764183b679b, 0x152f8c47e86343d9780324c37b0844681b1a6c5b76dc7aa3a57e957edc0aafde, 0x99e633a5f55fcb80e3494c20e6c607ff11cdf92f45acd6134011ef96e23d4e0, 0x18f88c7dd5dc507f63264610d668b8da3b1c704358336718bc68ea22d5f731c3, 0x29e39b42c32c642ef36100451218da7b33d7cbe7bc5882561a3a4c2f30b90c2f, 0xdabe6781251df0230a700efbfdf25b0776b5b55e2816be9b614c3433ea26c5b, 0x9a1fb48c7575cb215e981afaf6fa4e0f05949fafaf7ec3f1ebc1a6b2e0d61fd, 0x954ad0d0b6b9c663b1936b4301194a9cbe677f9a38ed0b544122334bc509f12, 0x20d340bda271bee29f093f2a5e2f257580f7d773afe3fd6006fb5d9c9461d337, 0x4e175a9a568c9a3473226fbf67f3c8dbdf71891833feb516ed8f1dc952d143d, 0x16efc53ea0c960e6bbb67a4930b7714a504dbacea7850303d662a56189688c9c, 0x163642b36df9c9b99d6a5350222139406ff558c486445a57a8c200065a3f85f3, 0x16885f2d67dd2eaa6b6e6e4a1cb778fe5b38d249d1d668156c033e36f8f35bce, 0x2154d6f24acd0cda11326e279ee9f9e84ddb4ca4bc11efd7136ac5d54573a933, 0x162cf98c08205fb5f4a0e9cb76c65445b300800021db1ef3b2d7919f9c202fa0, 0xa6fb67c2c0f3320e22b4124b4feb76ce1330f85dab89c4477acd78214f472b4, 0x26021cf74a02b192f0c4ee77938e4f452985f021c469b6e84f7df3dbd86535d4, 0x2c8b9704c6b41769c9059238f51fb3827a9fb146ba424e318ab359358bae0d77, 0x28fb6c843b7e89259c13e51589804ca40a10f5b97fc4185449b1a61a6321518d, 0x1e234c17405876154e1af71c2ce4033078099705cfcb718866b347d80ded098b, 0x22836e37162efc88789ad4a5615f8e32e16a05fb2778006490a2fafb3743a7b5, 0x28a70d2aff679df7246dba5fc5d8e401c7261129e8a1965c5c5ed57f2ee5a7a4, 0x20a5a416c4101fb1ccacb4f101ec93c08b8ad9f4bcc0cd34c518d6bc136d4d62, 0x84057a3a39dc92da1f3da1a1bee29679f343096287d1044dee2fe29cc88b068, 0xedf44da29ee4186c3ebadd1148e1011b508aa94a544915f9746f75c57df777e, 0x1f75f3cb325a537b11c16002c927ff5d8c75189c632bfe66793252d242220d4b, 0x20acb68f015bd689779de6a6c70189e40f929ac4843d1df1d78e6cf25f6753f, 0x156c068f32e0d7caaa30e86ea973f7ecc4bc2d53049970c956b0aeda3af888d7, 0xeb5c66c8630a1c3b1b67a287dc32eb874d7b8944f7e2e4b6d5f81ba9a86351e, 0x86432ca6c103cbe76449ff27acdc0c72ef5535b3df5eb728e1d4caacd3867b3, 0x2591a12a1bb2e85526f2b0110b0fda970337bff3c42b0d0e0921fcf12e13e91e, 0x4ddc8e152142c57c766b50c4c8baeeab6813467c1cbd43ae57c95b0f4b74cb2, 0x16bef300d87c6582954f0b2e5fb74bb04b7852b2d09af537dbb87f4c037d114f, 0x22bb40ac95127ed05da2e9c37f14eda92586b50485efb61bb57e7b058a5cc5dd, 0x2152a25e328616ecc63f9f625be4ad4ee37a296e5a584926f1c1e6a99d335fa7, 0x1bc5d41bad17b44fc5aa6950aa643ede01d373b0aedc703c26a27dfa6337d04c, 0x19993e2352fe907ecef8bd33e642d549f9784545e8aed512af7eea0a5703ea4f, 0xa8e009ab829fad34ecb98660ba055ed46d9e19a5457fad0e571346d83207276, 0xe5abaa3b20ebedddbde163027514ad22ea8b6452d1e0fdfe5d6c92ca18bcde0, 0x2dec3c17312746988f783b14f92fd900fb3bea137b9da241e2d6858dc7b691e4, 0x1a05b78180f3bf45994f7844bbb59f02538dd3a06a1f462b3a8586d45273ffce, 0x16d22b879334448785405b6e74e823fd23ce82e68db2b392bfbe3ca740c141b5, 0x890771aced399845ecc5b9cec64a6fc925f28e39e48ea0cb473f2ad38b670f0, 0x2530f400e734ed8b165b590db1658060cb45178fc4a3b6a96bdf62437c4215a1, 0x15e0290d7ecc55b275f623a63521d3979777442a14f18914d1fa8361bbaec66a, 0x2047fb78d48665b96c4885e5561fd89c6ca44218f4aad4adf202f32a3e3435fe, 0x150507a482c9b02e9c8884b33b154f4d856228655e7b64d0470eeb92f070517b, 0x26098db852bfdb0733c07727ee94598b5b75f96170f2cea41b51088d4fceb8bb, 0x1969394fb4a65784c3ca4b1fd9d241648e6aa58bf45dadb5848b9b55aeb49dd1, 0x2ccd5ba044e09902e540bc58af998861195b8d1b96bde96f059ce2158b8f4d27, 0xe241a1e88c1676b2cd2b48ff54a473d3b5e8c95da39c24e84375e74f7640eb9, 0xd64f55b84a0a5249d7452cbbcd2657bc2cede899380169ef36acf73c6fb42aa, 0x276cf981b3c8485a7f6e8a85a0c37bfe9485eaffd46796829cd170df1d25f5de, 0x125ab705a0f35a6c9e70e37cf82cbfd1b74a47ce4dd8c636520ef527cfd4996d, 0x2edf2bcb182b6c165d77946a219a542afc9383e9976271b19e585cdba3b4c034, 0x3044593e5115c8bf4b42bcc7374eda1f336b1d00cf30d0c6e0d8b8a02e70b17, 0x2c9288d07b86474cbf24db27b74421dd413b90870cfc013f00ecc0da9d880086, 0x8096ddb7dac5cabdd02794e0653def787bdcbbea73661915b20b233b13b4938, 0x2ca0c65eddea643c6cdd2b617752f71c5b36314afb56e2d7733c54ed7dfdd8c6, 0x720ef11b7868de6172541965560951e30f9eacaf95da183e793ac4405c7aee, 0x15775168211ae2c9505cdd3ce6188782d031648cf812d9eba2b24ceca36277c0, 0xdbd7358505479eca3fe7ce7b3c75615018996d00992cd43bd2736bd8ee0fa6b, 0x151a6143a0bd9763292a6aeaf7c0992ab65ddab5d35f2e713287fbd672b9f6e9, 0x119830a7f1e16e539fd97602ddc967e4119d9a48d6e84281ad0e72139c0a54e5, 0x166d4955f6c7422f53e750084462bb82ce565161c78a71f68c06abfc80c5f578, 0x2bf7f7791ad848e6c8804113cb78a0a6dc5f1a947341006ddbfe84dbf96ecbc3, 0x9b2550da955c2746eb3a0014c116e67b061402072acf2cdddc84af76da21cc5, 0x3ae24e58f82a3e97fac8b390c64434722325b338c6de16ab07ea83da7115b89, 0x22ea98db27502e4142824a333d94e297e0134757f316dbad2371cc2f0ad18d21, 0x2d42020b8f02617d9afd0693dd8cd09000c02a94aaa14b35d8ecd808edfc1596, 0xd948c0328d6ade9ecff1391cc926da7311bb4b311cd893a9fe917640b26e7c1, 0x1ea1c2c8c2824809bde63dcc62f6b06a149fd2b9bdada635a4c35ede26a79e82, 0x2e90887277a6e6e8d963799798c9993b41e1d65845c17840bc1669c3432c64b0, 0xc850a86697d9a609d26f02a99e116c164f3d8395d3bd699f8321f7628077165, 0x16d89099db9c32d90e67a74308b85c8867d1cdf0ba3c97c7a3c050322f912329, 0x122b8bb74a1b8b229c491ad31632da8e0b90c66f52be1cffba1f50bd740148af, 0x2cbbb2da62a9525283fda5fc5782e4e11c0f4ef559c7157b83c599fa51c11bd6, 0x1644c2d0af390c7835bf9a1fec01ae087bddf1a21a3d988a75c9c5da6006acd8, 0x147cd2bae2e9b717963ca623cf2f2b7fcb95672d056c1d73d2af372d8dcd6cf3, 0xbaa4d0ce6331d92b98beb9c28f6afafa0b9c2ca2c194b9f70a6d3b628e3ea25, 0x46f9a4aafb654f4a6b9103d20814e485b0a00819f200f8b2fc4844eeeb9b871, 0x2e6e482813494b77a2d153f8ce9ac84f614871e2d6d6410a7e9e9a786210e9dc, 0x219aefe0530bf083338865d59e42657596ca68ce12067fbc845c4b906ae6d8f0, 0x2b93eeb5f5defaa2cdcf165c91dc4b2c679f0a8275e124d9a45e4ef49ba78419, 0x2f5270ac7581f2186ff3bcc58c6fcbe53c3a8912a5e2b51d073b0e3e2a5e0489, 0x10cdbf5f96b3ff7196f8a6caa0e8745493277fa659bcc448efde72b71e8323c3, 0x2fd3890b8256cb06009edc1ca614e5b89896414190c4ac912ddd2fb0a54547ed, 0xe0158a776bae6cfec58654426a8e0874d2a0b51580088682628d85b8f628ed9, 0x11d039e75730946e1b43ff6b1a36ca08cc68efc163a44afbbbd181aea1e3f760, 0x71e4c48fc462575c67463be4de4c67c178e690f7da3a02555f124f722f28c09, 0x221d11a98eebbf2aee536ea32d02ac18d539ad54ee9172e46a232a010017b2a2, 0xba4e4f69c3496368a277ca36f6b2d8e740295843219e90cf7cba25187357f1, 0x300c4c6484de03cb35ff858bb199f7a84a414f0f728de84742a88773642d0aa5, 0x1c508d314cce78c25d37c299edbab30ed7524e1902b335bb4c9386f596ef3f72, 0x2383eaa5db4f7ad7418a38459523b2b795a4f151505bd796916c5e05c0b7b721, 0x95007c9bace943994fd0a9f9f2bf09f8e576893256aea86969d1bd210f2249a, 0x2ebea4c9470c5979655c311724df6a0e451cdb84cb2efb05830374b4fee99a71, 0x24b7e73f62f97c13ee370552f0fbe6ef0b5a6e647f42d95f3c66e31e0b0e0226, 0x803599f8035ea689063376c1ab9acff62203f5e0c1ba15ecb8efc30fc1cbdba, 0x2ab4c0a9e9115cc1303530733bea83654fb3d8a8ad4adbbca1b37ad21f8d9b35, 0x10f10b0d5b7a21918f84263cd64adc10e54f8767ada0a7fb59d7191c31d68f4c, 0x238ee32e5ca6f2911047e0797f4fd2571dcdcd775a81bf945787dff83c1fcb6a, 0x1ced6ad5ba466f3efddeb749c7d093d5a5a24348c9bedb513de6047627ca2d29, 0x28429555e34e7b9d39b0f9b8d68b09c89cbc0bd61dd301aa951da42b77ab72f2, 0x1b3a4e3db4dd67a5df83035ba6e55aff71f517d7e6692238091ffd1da89a1655, 0x13cc2082bc604551ef4fd01a81a52261f7979dbea0eb84296f2f6416d57d460d, 0x263b9e3cd8dc5a4413ce8e8c573a8116de4af9642bdaaa35ac342ac8705ce5fe, 0x1ab39521acbdc88aabad582fa222d6adf5633cb16fa853e6f4ee0414dd8143ce, 0xfc133010270202b550a0322e569a9653a21f034a8b305a61819c26a9cb538b9, 0x291875d007b5cdd415acbc76c69b6122c86abe51c18eea30136bf66571588216, 0x2e2f9329346d920a98386f2c0a367740e032468696fcd5ac6e2cc6622ed81d6b, 0xf093b428c6244578cd070ca16e69b36b0b8e2a585dabe4af899efa7c5f7ab34, 0x85bc13b698239310b05501cd59a78e9d1f3aad161541bd43080d9fc867d81c6, 0x136222a91f1c9487f3ff320b9e3baa52ef2327895f414c4d4b2b8ccbfef82d0e, 0x2e9341e5aac4da39b3363dee93af0482244b47679de4eecb5a54655e11841305, 0x28988bb98a34d5195384445d76cfbe9a7cda979693d25caf6819739888cfda7b, 0x13b4e0317e3f9cc2f3f49f7dc14c971372518f2b053de35762225ed265cd5b36, 0x19eb35c7021e14e946225fac7aae09481548d0eabf89304a3f62ce915768a7e9, 0x1d37d1e1ec0d7f119bd33a5116e19b07ccb42a6bf7b129bf2aa1dcaf069094fe, 0x1652a1124b3a6fc2029e43dc24de0a2e306968b12092787e3d578ed1d851db17, 0x2d82e3d62258db1a035e60aecf90cfc35c2a68abccee846d6f30dc7be13136c7, 0x1717bf8ac6146ab14ed32dc7a340f8bc0165bdeee55222d4fc0d1b9b8e87313f, 0x2fea8ca2751b165005fc5799cb9c928d3f5719fd377ac3d5ab988cfe7fcd0b96, 0x13122020261638533ce1db1818eaeeed3a3e5461925dfaf4d1ad253d00c0ed96, 0x8e63b96916fc88aab33140f6ed477424caf1b792acd7ea43c32848088b35b61, 0x1faad0336f78a518e2209d7e85823be53ead506dfb0eb4910664121f4db6d7d7, 0x9e63f2c7fa18fdb6fa1c263ad5f6cb0c39e75741a94bf9f32c5984347369172, 0xd5812bcd3b13051f2a5811608cb30968de4f9c36dd7c4f6d38fcaa9aebde1fb, 0x1cef48b1d61226b8988148159e826f942e93972ce36051f55d0dc019f9ebd106, 0x213d3f4a801784d43909b5479cd159cbd628baf8b075cdb2cbef556dc12061e1, 0x1377884a51544da78a20bca27c033d666c05179f6f0c3b57a144a4d7c154fe8a, 0x2c2028206c6a58ea6b3fb8bd732935d210439f6cfeb683b7fa0b5f2d9041f86c, 0x291c29c826514d2807fe656bc2eadb0a5f264411b1381b0d85ee215e4806a4fd, 0x2c7f267d39069e4902597c9e3348b84a950f91dc7eee91a8061785de0c231723, 0x1bdffff475973387eb8cdbdcb9adc7ba1c9f63000a333d6b5a77c5b9d0efce6d, 0x108504de6c323d7bd6c6a54b3c7b2cbe67e2f863a483afcf8cec4d66849e2822, 0x143830758702da287919107b796f3e2c4208537704b355ef6d7d4af3b16519c6, 0x20cba0f444c54b7d446e9546034760bbcb21e94f64d6b4c9aab41356da39fe34, 0xd05f1101da898ca8034234c57c1b8d90a84068cf4242d3a4dc3ec6a71b56a91, 0xd58c99e7396f36791b921ef6b65b06f87c391b66e774bf40da42af79368e78e, 0x2f0d35b918fbae52212674d2c086ac35ffef289d3bfd783e761838f119866214, 0x2cf4868270ba3c288f4de29e985d0117ef8f2032235b5039cbfacfaf95b9f6ef, 0x14cded55649259b92ac128bd6e1b1bdb71152644c4d818c1d9a3a0e3a46eb2a, 0xf16f496633341d1709e144de29846f7fb1a40e41bb3909f41e791b749795d49, 0x2076608271804137e0c9f68c1b0aeb571e4d34da3954e07e60670e31cf4d691, 0x21415fd472789e80cbc15fbc4a5e3fc96567d552453049f3ba8a0a4158d8b293, 0x28d80c9d6979564568b87745409fd0c33e38efe056510874727cacf65e7f4068, 0x7fc32882a7484c03cdd3a0e24abfe7587ef02c1cc52b11c55ae3b626f8b0701, 0x2d8dd2efa9868ba55ade797226fa74ab88dcd0cd6bd94ae685f00d42383e5f8d, 0x1a986dc0a9c125037fa3b30ba0bb49959d21ceb20ac5d336b09597c422537ae0, 0x21f392183eed36e011b851311afc2caac6fe76cce1eb6ca42b9813702bf015c3, 0x14d56f1ce4a77333e61e10d44964474bec74349d22c209bd4c1e3c0a3df5022a, 0x2326ed65301ef1c24feb4e9603860caacd9c6f80683303caeb0ad7f26cab0970, 0x2a3d9fcab4c508b0725e9fb8520ed06b6d29b522e5e8af4e4626ba281ee85718, 0x29cdcfde40f6fd4b84b8e3678b51ed546be8a3a0d0025bf892357a9a2375bcfe, 0x1ef82bdad09b9fc4f7d84b1d355f0931b096ca3d0db7cec8e33daff2b4093a86, 0xbcfe28aeb735a664a360120b09176863374c387d6c0fffea5870bc0ea877cd2, 0x7f3e3ebb0d7fb60bd576ad9e7cb241aa310cca0d5d45014964197f7594bff2a, 0x2ac56c23ad3b8667fb05469317023035cb87ba64ac066fa035c73837ac8df1ef, 0x1e2e9f7e3702fa82feddb16036b94442ef1611ca1a2f1ca2f47336f16db80f9f, 0x245d55eaed831cbeafe45ad8ceb4fcbdbfc9d0ef8ee6ff03e31068d0832398de, 0x1ea295decfda9c0a400df14483ab3dae5bf43987ed926a02df2e7cef2bb64ea4, 0x5bbf568249f3ccae4c98e2549dbde639882927b39e4f39bb7d05f37f6af0d0e, 0x1c1291aab9893e46d2762beebb1bfb97465d00f30da6cf33e860785874cad7d9, 0x17634d1ccd51f9433152634c359773fcfc9f93f80fbe65baa59637703646f7ea, 0x14fc8f7234f6912c40f82a1bdbce93fa1af8d24fcf7abeb0c2d4f5a98ed71c24, 0x27efdff5ad6678d5fc5bd1da7143b076598b90db77772a8e9cf5c5295e0af7b2, 0x46644c4e7022580e83eee330c7228469b7ec8afd154a47564f0ccab9ba89872, 0x2c00d457f72e3452c86c1ae3645e645d0fee2d34f5d502ad1b3ab4d0ee3bd431, 0x3d24d7d5f668e0c76330b300b3eb77767ad982a878f643ca935a00742a21ae5, 0x3de941df807fb1cbde0f88b9ec89b64c11252edddce5123d2443fdabdfec534, 0x13968ee75a666efbede2dcdc1cdd9a5e15543cbfdd3d045486ecabad362df82e, 0x2a49f11f36030eb28dbb1c123c00bc12491a461126edf2371d4787dbfab690d9, 0xfa680c08661ce0671847eb582b5ebb305c69b6166a2d3d32dadd35b73c87fff, 0x6d5a0ba4f63840b7dbeee170772dbc060c4e7da78580f7f02dff8dbcabe2adf, 0x1f624813ff4e4ea551b18a754fb0a852be6ade91807e86ca6def238cc0f23f20, 0x104988ebd6577839a2b07a037ab4d20e2b00daeb6451e21ea61028b2b6acb296, 0x4e71dcb7afa2e832487ac7f13b79eec44d7781897e9075b9198dda984d7f7eb, 0x236f6b011d7b96496fa7baab4c5dbe743276bc974c0d2d17a81ff079a483ff20, 0x1587663e2b5d740eaef59e36292d85686b5854082cf903e4de4beb5340e015d5, 0x11d45895b6239ba0bf7d68ed7790502aad8e13c8b45d313e323e27432e2cbcfc, 0x253c79369fb2bb163ad88c751e81d0ed903e0fe6f15e12c0fcfa9a06eec12476, 0x18913458b59d37dacd0dc16811a34f844b7253e8bf4d7dbecebf97b0549c2b01, 0x8d5bca196a8ceb1ddb165927affce0e3e57e42b22a130392bc52214749297d7, 0xdf1eb022b44f3c8f358a7424021402033eb56d439bafca09201a463712f6bb3, 0x1ec99a4a3dbab58148f9cc3024da287f4083d70a91966a5c76b46b0a27bd651c, 0x1cef3c619c6c700bd295937063395501cf4e208182209f6718d57da33a23e66b, 0x28006478a2117dd3500711cf843ee17b97026884681a5bed0621c157f78a13b2, 0x1f8db17184e9aa39e5ac0306e471408a83154340ac6f9c585ed910d0d897ad61, 0xb4dd727de06a0a5946961b6f5fc0bcef0263f7e2e5829ddb6e49008cbc1b16b, 0x217209fa8996d860daa1f9c210eca2580eb3f1cec5aabbb56bd901b3d9fc871b, 0xf68b53bbb8bb4798d191608f9542849c18697dd7402db0b5f30317d2178befe, 0xeef36b6a205fbbe8be6815a1983e6cd146e42295eca46dbb316f976bf0596e6, 0xea89f549e8977b2ca99be52e9fef5713a73e5a06663918c83d22bcdb017f15a, 0x2bb5f1827e14485da2183c2c00d624ddbc01deffbc3235878f07a04a47bed1bd, 0x2f630711a84b9a470356b3cfc2ea0b9e09be16dfc9a75086b4b5978b69e8de4e, 0x2d1a64e0411d666c0ef9f06b3eb1f0c442913ca621a54307961896f61fe74646, 0x15eb85dc380a0cb81f1511dccfaff8a5079ed3100907772ef076f64bb4fb1f8c, 0x2935deb4412873991b6220aedc3e923c05eb87d8fddafdcbe1da6ae476075aed, 0x212a58a5f2ac5530a2515434437538885218522ac412496ce5f85a9fefa2d074, 0xdcb873fe2bf8ffd64fa76001023572997bde0937993bc9822928476e735561e, 0xe39308c1281899d7150092d1f116e41b981232c9d096111d827592e32c5ea5c, 0xa5679d09418466a7300e8a0a964f4d3bb922958885147b5decb1438b101cf84, 0x38a8f326cc8a51dd41092f40ea3aac4ad722a8744101f4068139c5d9115ebe2, 0x1dc0fb391c19c979337f1983b07d90ad225179d1c6bf4fd85601fcef1c1854ae, 0x1ffeb0fdeeb9c720e7be5842a019527689b3b8f5e3d63a3de2505a964223a292, 0x2cd6511bbe7dc9d2a8cc050225b73d69f7c2075a623fd6ff4bd024c2a69ad268, 0x21d4706590b1854d962bec4cfa56951ae8441cbeb1e4175f5d3b61b8db79f68a, 0x12da59528ab92ae9f0268eb1bda47594920e4f5a4526278478dd9a0107bdffaf, 0x7aed9e16edd41aace93c2078ba1333457676697ceb8d77b5833121aea63f06a, 0x13e9c52761d0fd356778f2c9ca94f6ac1c714324435e0105d419e112d3f42c7e, 0x288cb3c2e45d353233d2680366d4913c125e7f2cc6bbfd65069538d89f4dc477, 0x16af712074445c8af7578cd68e6e32e0f88cd9e99b3f46c63b84c8392468eed, 0x1c1d9b10584a446463b905d7194c780666b9aa00a781ecf1003a6a0c81685f7d, 0xa7c876f83ab4efd0d042493681e993a66420f23b0dc6337fd8e1ff0bedeef7d, 0x1bb8435cd2e6fc9c768446b13a53fdecee056f79ed8d0d1d36e3a784cdbcf255, 0x2d90be1ae182c3f440b85fd6da69e21de9eb2929e54b7512216ddce08a7095be, 0xc9de3a0dbd2d14270f8a16c486495ae5ad2d44c0322f0d990ac4a4e024bf575, 0x1e397c182116d4e00a53581aa108e5bf880f8fe0736e98124aca92873840399e, 0x20a611d4fb392c94d85684590ea0aaa38e4800d027650f823bdda0e8083ba202, 0x1ea1b882a97d732991805ae46935233eeb424f9363f9e5fe864d30237484ebf4, 0x13f67ee6e8ffc6ff26648bc6e3106b834a3354ed989d351f4f08f2796910d1b9, 0x35d6e11fd71458caa1c0a7f76828e3360ad2af2e88a7aa8e5e5fb2a6110a56d, 0x1254beb4738a5e8e50f45fc7ad73c512165e0c20c0c764b1747dd24da4b5186f, 0x1e0b231f595958977dd7571e0e6988ddacc14ac1fbe98ac784f8684a101f417d, 0x1d787be18d93eeebcacf4eb98f2226645cc1aa4354e6af4cebeace6b44001963, 0x1b629ce1b52348a9865abe18e6c537f88b2455e0f0de338cf51dff14e09993bb, 0x102b0b82afcecad50b6cd976bd3acabfd34ef4f57c78f5fe7b57127d166504bb, 0x2c4f4e1436d85e914162bd51bb9d13bfcaf9f9d30ef53bd75d8f659820124eb0, 0xe5d628e75b9cdc3a9898c4722023bcd26c2307dcdcb74d097f4fe00bad021d5, 0x1898efdbbbb625982db0dd512e8540ff986925bb78ea970cb5d044c53dedd4b3, 0x2a586ae0193dc050c68a6340d6387b5944d21cb79566610ca15cc0afbbebd619, 0x2c8df3a839ff2b2e1071ff973963e163cbde5994da3700d24c0942a1fb8f3e81, 0x2c40e73f41f7ada9ce46fed754b987d77c7b9c9be1c866cf0e50491785f9aa86, 0x10a44419a271043be49ccf50d187302f300027363f20187925db8bdd0aa9cc5d, 0x28250cdc61eeed8b98fcf0f9a839b0cb299f4a80f88534298660902932b1e8c7, 0x1b01b6d43822237fa886bb86fa5d0adaecde3b834324e93a02571202d39c16c1, 0x2b780386f9f3da9b23f88dc7fa2615e3429288d9c5de4803d42ce69ecfb64661, 0x24984ac7b0d3a403500f0a88a73ed082f8762c1686f379d5241b64c6d1ca26c8, 0x2954829e72a69347f4a05b5e4bb3a3e6e5badc6f7b963fedf95c52ed5ecc488d, 0x83607f9e053a5c77ab95343c1a4620357262891d282195bcc4ded3dd788cecb, 0x27cdc8f0618dd378a7ca6b89fcc86ceee70a7cc73d29367d3d4539291b73775e, 0x1c452a7426b31ef9c186906b2528de2b6f8b264c7083d07195fee3240f0cf082, 0x2a70b8f7a4f98c94dfe478396c24c0c73445153ca6a63f4135a61a7a7149209c, 0x1ddaf2c29060384a64f142964f68c38ea9b2ddf14c9aef92b701a00f4d78c967, 0x18d763f5955669c75685d78bbcfd9923b1e28a6fe22d19e53182bae2e387a4b1, 0x15487b28b3f0687448c73f432cfca0db556501a9985db9782ad1f16011aa5584, 0x1cd157f6023cd720180e59db9dcdd1d6d6aceff9b6db1ac72284c0a54157bbb8, 0x2f2368f8d046b18934dd27f29bbff29c909bb480ee0fdcb7705273766a189bf, 0x9d13a02ee4793785933ced2ab70bb0334e7a6fe653e8d4ed9783fdbf9a5f1be, 0xd66c61f8b505a8efd06a8659d1f83910a781182a4383b9c734f51200dc4d62a, 0x2d32aea4cc326f82206b91c986181f18ed3c3171a53177243f2dfc7471976b72, 0xafde5f85a042ebe32889c6a3e00fb40c40d9a1325f2f418916b1a46e3e4411e, 0x29a3c3d0caabdccb6c7d358593bcff8dc2e0518a9e41ffad251b50d9b397cee2, 0x322c3386bfcbea88f4c322edb06aa6d5924122d858df34efe6373c44b7cbd61, 0x1438c5871add7ac0d3a49acd828a005222ce8c8df43059edcfe399d90e281363, 0x168bfa7bf400f5bc0cc14388dd1780550980e4134701a2f21fe0eceeba59c712, 0x1dc073a172aa9728c523545245f9160cef1a76e4cf74b6eac7d113fdf911963c, 0x26c80f81e2f12a302e630e9e4d3fc4aa14a7ef41508e4b35a0b58f3a63809290, 0x2dbf4afaf4c5ddfb04cb3ae7aaaa6bc6244c57790a6939ec0febe2c17bce532b, 0x905bbfbd61ac42226f3d9a1fbfd2e90eb04dc665e023ea2395e2b1cf79d436, 0x1c1daa03e2b5bce3607ff15e37bed1dcbb5e189b073b6c20c27ba16ee2aba814, 0x1a2f8e8d55339623c11340ae1b135454635c71cbd8d20b6a536a39ff736a5243, 0x18535c592e62581176a3464783cf099f6b90e5cbc6d80f12398708d7941ef453, 0x29f6bc49dc5991c8c89c9236e0535ffd6ec13e23042bd27843a51f9fd2b369, 0xf99bda8902bc2630a41884a5c477fe8ce7697fe86a28119d5a17bedb9ad85aa, 0x2936f41a19816dabc413275d943ef09f3f961b49e15ef9d671d119aa39e2b4db, 0x2b3e5c1fa1bca2cfe43fefffaefadee5d8bce97f52484ace59b10654909a3c2b, 0x2cf54da2864c28dc6817000aa815f4d585821780bb27fd6762ac6f8c2ce50398, 0x318d4abded11ff442e3295eae5f62b9ab53c783b0509643843123b802d2549d, 0xad5edae189c9098ae537345a1d3145b442a7776370ec6fdb6cc33cea6789c6c, 0xc02ec64e912a52f98bc967f67d74ea53374a195e6b8df2da1c0abf95fed1c96, 0x10b354fb05e07b72d7d655444cc964130e3ee7b63744981e3c5a65279ae805f6, 0x18135a3547443addb809e56d299d6ab71600ca6a67d73fb903c46ea1f88a78a0, 0x169b2d1c9533fde28f5b61725eb1db2df523c8a7f326816a48a06b492f7d0971, 0x706cc6846991bfa50aa52747c63ab1bb357c7ceaa4b38a0b6bdfdc48cc745d2, 0xf23a2df079a3a7f3909ffe89f2a2e5d48e08c81f56aba869b8a073b134c2766, 0x1bb2ed4cd681047a7d449a435b1412a1a54576d1a299d8307c9325d0d9576658, 0x28d41a2ac7b3c71974ee058c7223a0a7ce0bb5a1e485dbd2686bc1300b47e21e, 0x25ab50f20dd391b3bad83fff0ee9692258536da228190b723073d55310c4bd1f, 0x27b24b346de16f4f286a056a24239895adde11187ed5c7d11e7c535ba5ca6300, 0xff16afdd9da02815b98fb92c5763b49b0ebfb16bced629b8ff2d6371090c495, 0x8a1329feb54f08092d18db2291e91c4e17c7c09913fed4c0130fc8e7f75c9b4, 0xcd6bd732307ec5314a14259d354bf7d277f05badb1cd07253866472d7e90769, 0x101bda1f28311c2977cd3b452df6aa429424b87cf47c92366cd45d9926a0abc8, 0x2c39319445999f80e7b80b5a38639a0cebcd5b0766f64230227f6809280ef6e, 0x23e7afffd0c6fe2ec95a394af2cb724aeb088250214c099343289bdf465d46f2, 0x2176e7a545a244ce4bc1a7c2bdca95312da62fbdd2bbf8dae347c611670ea7da, 0x1c6067731c77d01d3fa867e8dfec2b88acbc17e7ceadd706c58aae38254ea2e2, 0x1588b2582131d05ee20beca1ce405c949fc16292219447d2b73c628fac00cc58, 0x232f65838476e01be1287b72f8897938f0783eda92b9f4c1ebe8202eb29dc889, 0x22b6f2c624b637e843e74a76c325b05ffc2ae4614384e0f3a0cc18565624676, 0x1202e2c0a73b8a2b43469495dd9531dcc8072d16e63adc02923c50b141a184ee, 0x14e203ca64dc05735b33078ad83b969421b96aa9e8347ce2e522eb38886db24, 0x40923212b1b7e37c937793aecc233f202d6b7578fc6f52774b165ed6784e471, 0xfbfc45be7c5f3901abdef853d2e6216b71835c365f0f97df2f341f0f049e92a, 0x27310155192b1726750c5bff7117c4ebec2099c98b0de8c553f58defc30ba318, 0x19c2594328dca95959c2af80bfb179d25adef59eaa4a74f15ed3f19340a08cc2, 0x104796be743633ccc53f728144bacbebf5a09b5bc0717ba33fa69def3f31cd72, 0x1c97f91df1d79a0e5b7803b2a59f15ab176a207d1ce3f686f2e322314bafcfe7, 0xa24aaf916ce0d22fe01afdc5f96cb1c40b49c48c99669354fe2c280a33f8cb4, 0x17dc7a5303ea797184fb650273faac447284beb23e29339d3ec9d91d3f8c76b2, 0x2e1b387ef959f82a150f807dfe5a3480faef6e7f79d15ec65f924d0aed280a56, 0x1153c4ce1088b51359d71725823d163ce69541317610e049beba015f256c1fba, 0xd8b8924cba44d571ef53912455227a5bffa46057018fb68314dceeebd088515, 0x151e868f5e19e96f6d2367228d388afd8c080794d0d5c77c763beeccac9fc0b3, 0x2fa3eb12a770e7837a8e690b715f5a811f4102f3f14bd30a308a13986a92d7d2, 0x28318e53a9949641761ea87af6c8159a0fb94915083d1a1308be8bb05dede389, 0x2bc3819053ad9a6656006fdea87efa94e4faa379e89c4c1d38aa12d0a141e9b7, 0x1c124776d2bb735283d4aad14ad82bfa8e821ec542aaf7065b47657757ac31d5, 0x2a000712e4a9bf5b395edda3092db0040d44a0346178aa0128997459874c4bc5, 0x1e0800b41ec9c392c2efbe25f5de7ceedadcefd12d437d874dc46af997ae0087, 0x2ab3b50a1e176957dc1f08dd47185f0ed0d9aaddec45c5cab796dd2d991e9e18, 0x2190a0c5576267156ec9081961338a471a0422d56035b8bf3a8afe7870a3196c, 0x3cb7bb7d3a38a7ff1abf8c9282298a5551c55d28e1bdb6c4e7377caa034961e, 0x13432d180a4b815ff8c3f3afb4250c99e89c9518417ce5e147440df80d93e730, 0x1596f4d7e5a9b9f5b7f5e1a4b6d068b6aac9092877b820ebe95a15c59830fa9c, 0x2b757032499016fc85df940d7ea78a6b6c8a1bef0417c976554640b914dc9b75, 0x2b1528bf87a89c542779e1d6671a269331a2b9a64b56501a652bef0dc5bd5099, 0x2fd143194441382b4daf486d159def58f1c9869aa0a3fd03abd5d9c923dbc601, 0x84e5bd84e9f5a3f8ac1a0be4269e1cab3bea75a651eb476b23af0a9436e9e10, 0x26c737750217a4e394e063815275f3e99bf87a6339e437655ce91f99a3f894e7, 0x11d44a14a217454b7cb9b013a7ed9ee78d380846903dab930a9f39c072a54e, 0x2cff02f46b0ec806c47b7c834e0c3378172ca0f7719b62de17f598ef8f047731, 0x18d2159e3a040d8af39903894bc9ec51d49aaa6d5776db31f1cd4dfa616268d8, 0x18f0110ae1d067eef4dd057722e96be6616b6c5edaf101db529b049a4e6126e7, 0x2870e7ca2635b5c3f898656bcd8dd853991704e07ad301612f4d7bb174bed2f0, 0x2674f59ed1fde5bb303cd010aac8a91458bea65a29db9a163ba3ab313cbd6c76, 0x3e34b2f33b176b37d8e88dd3501772a8961f02a5bdb29814588a44988157da9, 0x17944c0c7d9146518157f9200092bc82bf2c5672dc8584823659b07a0cef37ef, 0x1267aaa77cd7199c10f7c2bc5581a42f3c7b08371e3aaa60bb423ad2e2729830, 0xefac3cc0daa23f1e378d1dcbdb2edd6a5d84954dd00553fac96416259123831, 0x2872ef46fc5700461f9af029c3611400a0a80497b58520afb43794da71326a97, 0x1abf3fb66b933fe5c436b2e90dc1dbc6ac2ffa74cf60bbd15d183134f069b42e, 0x93da890a6a4163a094fb0c3140683ba9868fccf8e42bef0a51e7bd577bda0f7, 0x2520ca8de344289083f5d01264ff76a5ae776e69d65d671442f52a680242a44e, 0x8f3791175eb454942ba5e3fd7f00463eb88900ee9c053d105f9c838d29b1035, 0x4389b9fcf9b26a0d52a7a86b11f50e4cd49cc758ff9c1c9352481c2b7cf55b5, 0x8bfac675d4d1623f5486662b8e9a72fdb4973064d5cc6572a36f8691574cfa9, 0x2a8e53108a5e6fa2b0bfd2e01a859323491aee5cca45981d7168f1ad1dd42a5d, 0x1ea97e496fa619c52c19d5b33076ce84d51ed947970643b0a6df301102252a9b, 0x2921097b063365942c0d6a534e2a92aa408908b6897945ee787bce67e4574ced, 0x2113f871b713c7ab1ed7af63982cf46095821e2aaef61368eee133aea6245f27, 0x421c9fb1ea7d058c01c2537e22d1c717e40c0396c643be3e7c029c055616374, 0x181c57d9013554eebd5b3e9a9c4a89a7fd55e772eb2fd4b2f47e5f015b52b7d5, 0x210fbc7fae49a8711b72744a25878d1ecf3a88401dbdc87e7620ef080e9b1b55, 0x38a73037d04b19c3cdbf74c32cdbff1759dab57fdd42954a3afd9807537c8c, 0x1c4faea527a5a146170cc3a85289479fb22e5bb5ad2c1900999faa9080bbbee9, 0x20bc74457f7b36956f2759ad6a18b00ec602a039c00ca7929304afe1aa00678b, 0x18dbed8b1ebd14fcf2858ff2c139d26fe901ce4e8b50f28c16ba6a56cbd6c3df, 0x290e5f918ce5182793fee062e0ac82599a6039cedb0327c69cc35c484a60b52f, 0x1270f1c49bf05b5711299838acb2d77e4d5209d650de540d000fe0b636957250, 0x244bf00718449105a612fd99f81f8293bdfd43758a8375aac6447d67afa07d4b, 0x253c1267e1697769dc5b914a341b02ead358261047fda749eddcc3e6496ab62e, 0x1f6205923f15d6674f8fa3f5dcbf9b6ae3005471afbcd8571a0b02535246ff74, 0x197d7d842654c8e9582900b5b72a9bbd5b43155c039140646b08fed032afc7bb, 0xdc5162814338dfbdc374e6db2f4b541c598de3a6832361f44003a8a88b13f46, 0x118c03871e753f7528b2c0834123ca8f43ca7ab37eb1fda534bbb334e94c52bf, 0x212a8c29677a919cfac2b9daada92346ae588bee142654fa836347239d23144e, 0x12bbf40d2464fac9e64dd04d65399fa6ef74f8528cf6a3aec23555a82af23856, 0x1e1debb4f76f3d7ac15633e36bff09da18df1f9ea883af3bcb5ab4d84b4a798d, 0xce98db1da5431b8dcd8adee704963f8e89a35b3f020e696d79068ae3cfb02d, 0x21944627e60ca87a770eaddd5486c15ca5e487f4dd1ae6ec2104de83c3216e86, 0x223ca483774a7c5d4f1ce388320e1d5f53ff95dc5ce53442aeed94bc2625d392, 0x2501b50c7e7f729c7f4d896501e294dc91c266bd2a6dec0cbb09af8a13fc37a8, 0x2e438c6ef07f9bccb0218649a91da9373870a45ac4524c6cbf073319a2194fff, 0x20eb17b53e680c2b60d9f3d55b9dcc8b5db59e04b62afcb968cf6147e35a91c7, 0x256118253984eb71f26d781504b84d8288398293cc419aef59e8613c9fafcd42, 0x20bc1706e7de27b979166c50f3b4b713aa07a5b868f5fcc9da4faf7a066feb44, 0x28ba38a4827aa8ddf9349dc4640fa8017b0cacdb456a901065aa6cd3617e17fc, 0x561f8d6997b836522d4f18603799cdc60381f5f65fcfa7bce7620b8fe8c7462, 0x914871465b2f0f3c83c416535a525082f8e6558b54de301e5f4edf52bb6aa8e, 0x160e0b49d6bb20368b2a48a20c55da0d2659a94ab59f174de5dd4c13505b04d3, 0x971ac2fe1f38483d27137f792f6bc0ef51108d2a87877edb01205a23a18463d, 0xdb36e959b2089b379088932fa5251e65d4ee1f415ad497f5677e69d620c3f3e, 0x260e6baea06a53e7947e163f0fe833e512802f7862e8708f575fb6baa7ed6ccc, 0x103e7c9849aae12c3642ba73872141c0bfb65be896a6ce0f45ac9ac8d746ff6, 0x19853a0ef0c493811c3168e292855f690100b73069bb50dd32dde06c96a4bbb3, 0xe2823849ec0077c2e8cb25046f6a38780e943ca3affd973c883809e227fcd9f, 0x15669e10f37a3d252b28f8c05f66420a4bc6e9baf7a6dd7032838972bf7cd9e8, 0x1da3b467c133912c54fd24e00f2916a91d533ee46e68fff074d1a1467179bb9f, 0x28c8aaa806b13f8e240e947d48be89c609ec24b42ef9b1b25916669eb613f715, 0x1287309126dcf2034cb33aa0d01b7e5e1b020a8a08ace1bae33530d5db8cf15c, 0x273d73d56fc498d1be414428870a92f0082658d381013de76cc13c80a2cd8de2, 0xf73e29149d0fa5e27ffa53e4851187a653f2c5b310ede6b9598e4cbbd35a5a8, 0x11508faa2ff4f86a4ecdfec774e9d3f904e04d0fb9ca25b99be310c23dc74bf3, 0x8ada36165c3a78cf93ce4de9c7e13bd9fedf22b0222e5e70907c176588e4966, 0x1a649f2a76121b00a1fd7d4945e391fcdaf3bf69443b861fcf15d923a45658f1, 0xc7fb8dcc2a5da940996877b67908497fe074a98aa8d6008041bdb1f4dc6d6fe, 0xa6a254a2574b86867bfa9e5055ec61826368c028e52693242f63a83153abd3c, 0x286876e2f3e95927a7dcd76f37e4c937b4c5e274bf123801f0569bfa6fe34b, 0x2095c2d2a9f23395d77f1a86179c512dc1301d549996a3250080f52b9704c8d2, 0x2ac90aff52b956782ca8598cbb2b22a3285596b5891a1f60e141012bf2812ef5, 0x114e912fde21fbc12348be91e0598b057430bdafb0b4eb9cf93e67f7235749a6, 0x301fdf0c1ff5be9807b51a91614541bc0696cec7fb16a503029cfb4704d9696e, 0x9a579c36f8bb8fe12c0de65c24ef587ca40796c850053c022fb015fc6bb072b, 0x1c6f93d553f9e4f96a575325aed9682a53dca61b88507723b6d2adf2cd683388, 0xed419728fa31c55c5946db446b7fa783f8af594158ec60ad8c1f66893c17f, 0x19411996cb83bdd95e61aff2e6d4a57be99120783e41fdc495f358c98226890a, 0x2a1eea5321ffc604f87d055b650ee63503584495923a451b32fc241ac114f2e3, 0x21d5fe87e3905b6c19c384d4902bff4e573ed1df960100fe2f630f5ac7249636, 0x222da21f4b7c807ebe8f93b67bf507df715f53c3b2ba7754604bf93aed23a7ce, 0x11bcb33294e5f8e82bfab58152eaa2b91ef6352a9d0ba55bac003dc735172629, 0x15f62b8e5ac177e7c52faca91dbf24e6a90edbda53ea0c54d6ae7c38247b24b0, 0x1e329eaeb402ecf26259a1257fa85cdf1078dbd858394c06dbd1e47b988cf257, 0x1fca943281035ed71d898d161ebc246f9cf04135c3255cb87cafc6e11e0e715c, 0x21127d56f6dfebd40f026d758a4bb8591d3e1d48c12e28753cc71431a1db1ecd, 0x6a69dfdeb9e80796a63b4a698266093e1ba7534ebb7e2b0f3ab58751d0cbf60, 0x2c0a57a5cb496459e547d4366e34a9f89adab821f418b9a6c70aa1c61512ce66, 0x261858f737fcd0820151966863a110343b6065926b133870912c595d0fa803e8, 0x74962d54f26a02909f99bc37c93ef70043e7cc51e773a5e873d3860c57fe9e2, 0x297eb20bfffbb3c3dcdcfb56f0b0e221ef28fcf4faf052a5284c04bf776a0873, 0x1b8c711b0a6109a9fbaae034c0df650c32dd80cfc5981816dba5a2d3ba884246, 0x1872c0cfacf2bf6e42d11d52d28c306fccd53c2575a9a2534b83dd27186213a6, 0x9e802063ab8c0b001265ccf9e5bcd9a83de0f56fdebd385ccbf5cbb5da8566b, 0x2d0177d9e97ae16ea923bc29c3b34f43b9743bb04e0af385fe4010eb92b3faef, 0x20f64ef9f3b9143a4dca77cdb2c11a72f8e3bef8cad37a6e07d156d982d36ad9, 0x14085e315fd11bd4311613b563658e194a8de5dce828d0b401974da62a8f5953, 0x1eae390777228c03ebd563fc4cc11ee0ded718d0ada8ed327d4cc09a3307ede9, 0x6472d3a9addadb7ca55ad8d286d7ef0630ce84fa631832009f2dcdadc315da6, 0xfcdfdb353d3a99bf2c213d9a687d0321844e2371a5ca48bd41f7b25e96b6a7, 0x224c451f7674579be04568957daef86aebfab8746b8d8d68cbb5d4e2c53019e5, 0xe378f20b71ccdffb0b20149df41e2832c57bbf385e953f2c8f55fd541291a1b, 0x5edeb6a4ca7a6cbff5c5d92694bb46698d2d476ecc1787904863f49914e49f, 0x115bdd6b5c9385955a8a20d244c4062b08eeb78eb692ead7893482b00beffee8, 0xf6a5a9c39e7623c4583d9b7215dd4e3cc97e5a8e240ace0e8c5fa8343060ef5, 0x2aebe737741ada0dcf9980e84f021506d5f52f7a4082f0e97d37940123ad0bf8, 0x1b1ce923fec61ff8da2ac4ac5d3c2792c9a1adf90395d8c761aa96735a38a266, 0x1c221671ca78f00f58d5d5439c0d11bff3b9f74b62e40770a798dae970a5db24, 0x15770a93016e8761589b6d6e5bc57dca84cb91156222639139acc6f25668ceb1, 0xc530d9fb0d84a2b04d4fd5d2345c5c587e860361f808e5d5e60d7f6175b31b0, 0x9c928ddd310f013a0176e314d2d76e9487c5631082dc4c832b183b143630782, 0x75919a774265ef6248bae80704929456314b2a274a44d8be22c1a1747ece847, 0x1cc025b3a59fbd993318dbd65f22b4418faf8a597fbe9d9c46262f5b99fe104c, 0x10244f0e95bf93e832fe52e49e1c05830f10fba9136227bc7bee9ca10ab72667, 0x27fc48c5fd8fece4851eb5fab288d4fd41b3eb0cce56827dacc7a3509e4fa4c7, 0x219404cf8c7feef751db9e5d2c4db1ec96ee66701e78422f57b736faf2593398, 0x2c1636d612ee048e2df1f38dc67920abd00676a977af875ae66ea5d5277a134, 0x131e408587a1b372dcb79c84d4a9327e4d1a93e225e682f5a8c1e6ad0f79b0c8, 0x164064b05249b6cc87d1edafb21c8e2bf177f979d46b68b2bfc6d2f9bc636a39, 0x1a32d386114cf8ea9dc720717df855af4106533ab7e427da3d6f8091ea695905, 0x26139768d3bed1dfcd575cbd5c61fc57dd2cd45b8f725c25dbd87819129f23ad, 0x1d24e974d3c14d9a37f65a36ce2a2a593f321cdec81a40a58d65f12da202c3d6, 0x2569aff88e4d3f209061cb023efa93c26a627daee66d1b67b99740682a057fd7, 0x10b621d20c61e70b3292085937120b9b28c488875ecef4bb56ecb134e427d5aa, 0x2b4419af0353be507f3d3121275f9ce9a1a3c84003f47343972248b5c0d2f1c2, 0x187369785670fba473da72eac6a6b825fd4581b5bd52c78420cb246865845bf5, 0x2103a328f4a2673a0c329b136fb7f008d1a1f005ed5e4ca26db74d4d7f49fbcb, 0x799c7bf30075758b400e34108557143c4d713194e2dfc6d8a50089b1cb462d8, 0x20aec56c0e5b894caaf4e537d708ca7f8fa1e8a1de6009a7a2fea43a70519234, 0x2b839e4cbfc3bf9594e893e041989439863027056db91887c2dc09373f80cc1c, 0x95c1c06a5393a5995870dda2e65b90a20433dcd97882587aac02cf8fd0442c1, 0x8f2cf7886ffa7811e14cf8b4f5ee8ca28196b83478ded3719c2cec9a2b4de7e, 0x1ea2763d97a919bc44c3fb92e61437fe4093253c47bbfb2a9e55b252cf7f9f27, 0xc8e9f9166ac72edd6d7cb80e80227cccae1d2d2056d6a856a90455f56fd7067, 0x57bb346af28bfd4bc2341d64e65b1a5734034adb3e1099cf9fcca79cda9c803, 0x70f630af25efa8e4d8c5e35861344889bebc7ddb790014113c1c2a221e161ff, 0x11d35bb72abd9000474d448fe22416c8ebfa152c08e6a0ffcfa2217fb86e9c14, 0x2e486100284930c2e91c1d00add9c6c98c3114739b13f3b3f811717372c25a26, 0x8c39ff6e608dceb35123f2d64d68b23c4a81681e5b7d0b8b8407e9aa1c50ad6, 0x270aaab5852da02e7c1e6c8167739b1d719f2da3806118fe66b08b510aa1eb9e, 0x8b07ed9445f3d4f9d5205530d7b6490440653070c6f4c3e38968e82b93ba584, 0x666b480472adb317f5b138a92a4d295127befcfb83b7660681d41b96c408ddc, 0x2e06985058af9e113eb22379cc55b67a15e193613385bbc4775a68c6c526b6d9, 0x52319c919c1954c4d38a7c77741949a839b3f188619f74093e3180d144c725b, 0x2f8c80a8c321dd74d85f2dab2cb172a0824b990ca63765d6e17b483734c4a4cb, 0x229b17fefeb71703a7abe80495ff7ddb6140153f77e751fff2900afbe19114bf, 0xf9985aec263c3be8667e4c93dc0d8812f874cef6dc321827d66fd92681ae9ce, 0xaf15c566b682c10cc83c3bbaae3ce621d1bc3e0b45108126cc0df99c6225c78, 0x3177754c13726a540502787f03dea917c9c0960fb205478714c9515d6a10e87, 0x22c84885da685ac6b74e3914bfe2668fa08262ef24f1adb4c55ddda0cdb580c8, 0x113bb87961b449ccf5595cf68329cb19309e8d065d013fdb009ab0e90645186d, 0x2abf19247afd7fcf68fe30989a9a370b99a1f12df9b2fae30b6cd3383f8d6914, 0x2fd4fecf4e46d2fe72647bd708f4bd4809ff961d89dcfd2ae91f812e0a3b9fa8, 0x17a17efbbc358c53fb41930002768de9e1398f39df32a8b06e23033114c7f9ad, 0x2288e2ab2b87a12d55a319b351d9874c32ed44cc16d93a6a63e0852f0f64697, 0x3ac39f86700b6611f1192263d9442e900d1100f26031bcb8a8e6255ed1a9f4d, 0xd5322a34db3009785366c0060c47d29a618fe0b2cae945def9a35f3ddad1f5, 0x9d9a76e376e194d053554a267346b7e034a6d13447834db68d1c102367b92cd, 0x2a1e0bfc7f387787b93cb39bbd51cd9f023ae0e738abc43de81cbbf122c13e5e, 0x2c9ba1265abe8a7b57f69f8b3632bb13ae772ba1cc98ca033d5369664c40f5a1, 0xe82b784df5473936515686de5cf8ea1a86455a68b3b55abda5857bd5527e3ee, 0x3ec77e964b4dc113afbfa1dd2eeadbb676f73e27899f033c6faca223802485b, 0xa6f9edcca76c77a5d699a217dd7b62d0d704485236ed912ce6b8de2293c1e23, 0x1b628084d0fb8fe76d6353bf9482b59af97bf748a6e8046e8eeca9a8a9fb0ca2, 0x2480fbb04baf093bcc1c9162f78214bfe14c3649500d798e87477ff71ea99159, 0x2c92c181e91624bcb26fa27b6c0046054e80aebcf342de822df775333e2b1b33, 0x22cfbcf84ac83392239762dcdb03e8477b261be19ef57e2322c043c08935d271, 0x9aa0d0fd0027d58acacaf20e551e76434bd8216eb1ea6b317d1a6d23a53b1e0, 0x144d8e55408c898646f2e0ddb6ec192b5e4169bb312591d2c758b97207409ac1, 0xf1a39ddc785cb0881420f42eb4e6b5ecc10c81f490be17f815f9d7f34e5e54c, 0x1e873af18a55663a04c84470498b245b46ef6bd781fbb2e4bfd4333ba143ab46, 0x24a4779886a1ca1aa57204e1fb50e033e31c7f99b8084d285b0b9a933cb0b3c7, 0xe73aedc9a4578255f1d0f8527708f9d31131205e1d6140ef9757e8e07d593b8, 0x106f27e82457b91e9fa33358ed95a1fbaf86aae5d4ef9954a04dd4635ddc4fce, 0x1a952947fcb77c0ab07ecf32ebf40d96d40ec7fe87b24eb92b4c9eb16f2fcf7d, 0x197b9ed1a8ca8487b72d1e8cce502da9d2ba78c3f22cf7c05d8314722fff72e1, 0x1608554bb309772cbc9a0aab914c4e2c400d72f9f2e5dad466dfa1dfbe05d5c8, 0x848283bd8201837976d43341d43578f9b22609ac2e457e02664d34830671e36, 0x14beb77cfe2854019e05160b921f96119e94d616e93a0607936b450a3e033b64, 0x34a1494914e7698185d58864582bfe82fc0b7de6ad63f931718abf8238d2805, 0x1c319df3b2680bd8c716696b5d2cf503e0eea5b11d5dde8e95217f4aab6abd0f, 0x12c29c95fdebf01463121a20eb33a06425e914aa9ec61bf665bc01ca2258e1c7, 0x1bcdffb410b009efda67f405fa33fd128fa7cff3730b3860df29b2bd561e1ac0, 0x2e8a9b80ccd2b4387f0ec24caa0ddafb7b0fee1cace342ceb18e91223eea76e0, 0x23149eb655b8640b7fe76b1c0d3b486c2749e647a8d20f29b5f92b2fc64d7aa5, 0x2a650695e37bfea8acc998914335ff376dcd297583262384e27fb805a2223f85, 0x290a2e64f4e1f17bf39d5d4519a152801ffc2d2035d48bba0eb1a8f8238e869a, 0x179786019d36917e8bafa6829471c581d532bf10be7da1e8917a5f70a7724e13, 0x22bc68c0855eedfaef551448da3b639271008d0633aa9e783fae52404e7ddcb4, 0x1340d5b6ce060075459a84ff7f47920cd5318f9d127f9e524dd1f7ac1d082b8c, 0x942c9ad7de555dd976278aebbf1d22f1beaea0e5ca2bb5b0e6e679f2c7b6b22, 0xe65bbcb5ebf23a40d6e25703ae029a31722b64a0d210496dc17c9014f9df451, 0x112a919bd0ceb8455775ee49e2165b5291b9e4e400a75e977ca6566e6a0bd69, 0x1b91c4d8a544369b0daeeade27a0c2966b741a2d46131d3105741f31df20ea11, 0x2dd85797e168d21fa7e5b96622766ec0c02246bf9ee328a915ff2e2c8d9742a, 0x16224724314147d479ae0cbd26a381d4584a8acfd3185d4439b527619d3ae4c4, 0x2fe84e5971bfd3a919fad04214acbc50d07f3015d97c28405dde92827c0253f3, 0x2cb6734e19b3e02c46a803d5616730ad6343d3d923fe9ab98492921dbe14c3c8, 0x1a857e17f2ec1b4c210adfb6ab70c7b3dd0ce6ff603b7741dd2a7eed474453d2, 0x14ce63a350d29e5dc70f9ea2e1dd0912f8d734d32833723aafedabf41beb5b92, 0x131d2e152c7fc3e65a89f4a22e737335ed4f68c82c5dceb438b519c352132bb, 0x1e410af2e0c4f2d213cb346414d9169cbf481e9ba4d4431e2359119d796710f6, 0x2c93c1454d0cc86eb41df1224d9869700ede7836475611eb1f06a0360702d1e4, 0xbd5835813addfdd7fe52f4c8a3b10b157ca63073ee2782f74f43506ab58fc52, 0x20944de1bfc17ba91e7a4e57eaccb12a864f0f03f4979bb4a31a84425cc4c0e6, 0x21787b54ce543e9a71d11be03e1ee3ac9ccdd6221f43ae0d261624adc2bd982e, 0x225e74a0bc023c80bb25adf111d52ab833ea4e46967281064061ede0f3d70e3a, 0x19f618947300b561dc3d46a3cd62a9d25f7e9b33f301387d81ab1209feb0a541, 0x233a46287d519ac568adf99bb8694707775b999a6d0a3abca8d6ca64e0184841, 0x18d0dbaaa98db673b472c8ad11b490fac76f62089e10dec1e25386e3d04dcff3, 0x177aa6be86454adb4e45f649672423189eaedf3443933ca5d8cf2da4bc086fe5, 0x1a02810ac6a7679e40266f2ba978c62785fb467b84fb15da6b03c428ea1984d, 0x1ae6c70a5ebf251f5f7e4a1242096a326ef1d5514c38433f0128fdc668357505, 0x2214ef17acba28a71587476ce775f6ee0d3bd3fa5edade9895bb5e8e5d03558, 0x176948698048b89edde8c41a02d4198ff463d76881a3789b4b0dbe8837bdd612, 0x2fa8ea7b2bb13415e41758f04b784973ff08f48be3d5dcff9069f489ded8428f, 0x144cc7c6ad28fa2e47eb0275a1a4beffea9738cfa8f8e73cc8916349d1e22c6, 0x14f9aab5c16fb02c9ac8c143a41d7ec1f4968f48ee8df78ffe4f87b79a1f3c5d, 0x21e7fe0f38fcad374f525a7e5aec05b47a33eee997097d7b674cafc4a06cddc8, 0x28b0a91e448abe0905876f7c4b7cf7e0d582c3901610d72fa2fd3445339f89bb, 0x1a16874dc677554af43683ff0af81aea7c37d0c8a7d48026698640f69447f44c, 0x2422891d43ab71f8730f1c1447320e50f935213f5036da1d2ca308b84a594ee7, 0x1da66525137ce8f72bac9da36ae4f666c3cb7a3b29dba9d82f7b286b44c32fce, 0xc4731825357ab15f49be8be8fb61ba4aa49bbc66b9ea889de7433e88c6d549, 0x3000028c4011daebe4e6f64edb1fd3333638af69d40f0e95f484165868c9bbb7, 0x29bedc93abb3b62569dafc8b8987f295de2527006fa7d1ed0fd2f1481fd6687a, 0xcbe74380509c8ac7668895899fc2fb6b7fbf752aa483e1d9dccc25060b960ff, 0x22b694bc68df2bc4689a4800531bb1c9d8a536287cf1e991a03c0264d009fc25, 0x2ad8e28c2e4bf73c873ee8463eab2f3baaded932a543d50bb9182f246f394dde, 0xbbd04b434a55d4c5cdab684fa2b8484f8a1b83a5709985668e2d4e0c739c802, 0x2bd154a6074a15b651b61dc15a93640a887bd9e11704263464ecb9fec3f0439e, 0x2d5af17ab25857bdd7604420bd00f1f97232db937789672d2ca927a082046b92, 0x2f8e794e1b2e961d3b2cc77ceb684ca45338be65dd98f4ccd12e77d34708ea2, 0x24ea4fbe7f9b9e66c41cc0cb1bb5e2ce337611e360925dd3cc94953432a233ce, 0xa37dd5bcc98bdfe4fc6d0fd0ec4520c6f449af5a8bbe4f813b5ed5dd544168f, 0x86a59235fe20dbbe10cc603f69a78b796647cb0af35bc7206c541a48876721a, 0x2bd74d6c3dc977dc2309a0a7b0c7cdad09d54bb466b2bf0caf198218dfceaf00, 0x1faf44bd04babf5ab2e71528fdbccd5fd91db2c2001da3f5e76162313608ecac, 0x26ea7fff86fe56b7712b59e70e502ab9ce09bd8bea98022363816b726f374145, 0x1db2370b5f14be48485e1bff9033853c99d8073cb18bc9ec0b078c2cd90528ff, 0x24f5bf757d1a7c28fd53de7c8cabec5cb62e44c373a2a32f378da5aaa07d19eb, 0xbcbaced9ef9e0b03d3b87eb09c40501052c4bcd5fc32e4b2bf7b75e21148ade, 0x1ab76daebbedc5f1db440788616187c9fed43b1cb2668e53de5151761b39277b, 0x249dcd5ba6d7d23473c2a169c76eb581185399f9216aacaddd2463e0519fe6d6, 0xc5da17200b90a0b125b039ed922b6954d34b979354423743e6016b5bc5d8023, 0x2df908878c9402fdd0a3014351b0928f1c559790a0d416ad25a2616c1a073cd0, 0x21ce2e33089951b01af45df3816c80e2048686f1e8014c257c95e2ef3e2753f1, 0x1bbecb607950c54f74a627369a9f94548867778604dd8de406483e21f61ee1a5, 0x23c175479965b3b4a9719cfe6be6a610c0c77670e586c2ab0cf083501e69f101, 0x2f370d158d15b736562d6d0457c44706e671be9aaa524bc6b3bfc34280996100, 0xef11cbff50df1e1d36be0c8f35588bbbe406bbea31a3bb6e69b7f7c4f4ea1a7, 0x1f2ff117675d97535c24d19a58baafab0390f3d4114a965c43350c17ce095aef, 0x14712d01c897590d2eeaab6e98e18e5ac1958692a04c1b5124ee06ae8628cfa2, 0x268e361752c72a4ad949b2ad1ef9e6f2e806375946b8b9e6336038d4f849c2cd, 0x11de1fb7c05eb638a4abdb4b4382618529b99978acc73f4e8563c2831cde12b9, 0xd2a72343a90dbb53290239581b2ff31206a02b9cd98bac6667fd247ad909544, 0xfc693f9f8f5cb6a1b8be6689dbc03f5031f5df4a30782d8091f738dc7e1e9df, 0xe41e2a997fa4d0f8b752ecc0dc63b3a121be81ea0e242154dfe67ec049f5704, 0x87b2ca8d78931f6fde0837ce4fa58944596f3c9cf2adab8eae30b44944e1788, 0x125d93accf769d4d3514b21d4c663b1539e227e9cbc45964420361d8d220215d, 0x1f91ac718648cd1fdaf2bf6f11aeeff7bd8206cee5769d8817bb970339e88eb9, 0x29914ab6cec465fd92f8f2c869e1ce9d4dbb3f883b29685063f339588112659c, 0x2da4a10486ef6d0effeb26f869bef99f6d50d8feaa1ea1c8bde95989429e5d5, 0x82557d3f50fa517de2710e0498a683930db5b9fb269e8ab6a42771d5ae7dc33, 0x1d20832e960f550d7061872f6cd96796f9cf61faf4f807df0c3734a5e839232c, 0x1b57a822d34e4ad06cec4e19dff3246bf846bc3408036dab02bc2b12ca38e044, 0xbc798c8dcf79ca9a7c76cb0e8bb7c2366719fe74092e61e6f40e8c4087fc0b5, 0x1a975b179649b114e3c4559a1b14125e35e3630bf1f8383faf9af282c936700c, 0xcaae9f4b66b45e4732e97851913a594540730f26529801539c4d44896075fd4, 0x8e3da8124c621e070e8a41f0ff1f1cf75e2211087955392d85a1723bd2dc41f, 0x260e3155148f892b7f96b2d74e6c79b9e2c1a3cd9cd0784ae507875e4a267881, 0x2e3ed8d27ee71bb41e5bc98fb466dd4ff9d0f8a668861b773af825d260ae3943, 0x21d0fb7ce364e0ac781b1e11d89abfea006392cabd20f0740d156be1e45e7eec, 0x301a1aacc4f86684e3ed7a0eb023b92cc75af6f8214910f840c627c3da3cd71, 0x11ee53beb1e8ee4ec10689f4fe40ebd93cd1c9fe06d812e96a583368435ec2b6, 0x1d42d2dd9d2372530c30f4d6122732d1cef8dea9e2ebfb3b2679e9f0dcd04c9, 0x861e448b92ffe738e18ae67a143876d55a58c162f74d8e556714d1f7e628792, 0x193793bfe5c7b90c6d61475e89cf0d41447128f280d8c6c5dd4be1fc9072ef2b, 0x126b05ee124c85aa2b1c1273c21c3cefe7ded39b305c5e039a35f9024cc1256, 0x569dcc226c2e215ae697b8c6001011cbae7ce535f45a803dc60fde9da50c83a, 0xfe6172dd5afe8ff0e7e33f6499916fd4c5ff2fab969637ae32d8e4cfd3fefd4, 0x74ff2c5f008060e89d30965591260679cd3f0f5aed33162ac9ac99da10bab53, 0x86e65444d5366d82133d8cad0a61c20066b89be1c870dcabfe453648d2b6b06, 0xb9bcbd52b7b899a651a02c326e064ac6a97be7457bbce896e465d73e93afb9a, 0x269e035c429c4bdaedc393d2a87978a1c2f8ca0b25b085ea44ce5878ec506bb, 0x9e1b7724583b0e16a79ba7670636f87ea134a19e20dc3ec70c01c7b94664dad, 0x264ca5651ae7b84f43d8841cfb296bcb5f19fa5a06a2c4d2184b54c3d6370936, 0x24e4ad8c2f38fffdfb503a4dd50575c5a12426a5346359e3a5654af0188f0aa2, 0xadfcacef6ab262f8fc9d2f614c0fe4a3273c82a9e7335e5e0e0800d81e87875, 0x187addb97c4a6437145866cf270df4a57ba705970fe1e0619a0f016933065d2c, 0x710702df841d4ef5e0cadab7197a9ef19d7524808bba56df845a2e8f141bcaa, 0x2e0664aabc74b5c54d9d047bf5470e45ebc784026159273f1d2f5e4759c00651, 0x271cb7aae9142ad71842a770cc65df19d7d102d9235454d7c600a735a1fa4da7, 0x2ff475f9d52241c2261b9f520d2322f52268d289a028e974742d409fd8bb3b06, 0x2d3bb2cf8530e698b771ede66578a0149e561b366d502a6e79c23b33c500c2a4, 0x5c80b5a16b6a59e1e36303a59ba782cd71407f83273f37c19ea54a961e0cad9, 0x17077cca69eed28f21eeaf0f0048692cd310e6ba87b65b7594de5902a829d7af, 0x2edbe4d8286962d91cf1a93175f925b174cf53d855928f2f10cf46e7baf1f994, 0x2f95757a62d1a5289c6a087e5c829e54d5bc2e03082ad8621641d82f5758259a, 0xc2ca1a4f1682da3f56490d1f154194ebe40ab4419951cbcd508c86005cccfac, 0x151b559773edbfd4a49a453c1732212955dc9d5ff614e80e75ac63d065dd0ccc, 0x3043ae0869eb8d13b810178b96eb37caa27a8470777bddab85002384b6e1aa11, 0x1a843dff9621487d353b70ce04d9ded438f76c5013f4780798063a4df6db7b1, 0xeef8241527784cbff33f551f6e2e53d16b744589f50508cdaa0842e05eca01d, 0x1ae85b4527017d45d805a25b139e3f424d3745841cecada4658d97b38cefc4c3, 0xed437f0f11932bf16b0cd77f4983af1511e57078427feed328780828b8d842c, 0x17de9a117161bae7f824314ddb7a49d59e2443cd620e0e7af082e7246a725e9c, 0x12858cea51eeec2e4fba5072a9049318de40ea9a4179fa74c7bfc1e15706801f, 0x8cf404091f4ee5fdc068ff51a27e79a18f8ae93adda23b412de37eed164fbd5, 0x7638f755834b05e6dbaf1b992ababe1b575897e776ead3471a4fe68d9e70f7a, 0x246105558f45479e8cd5497d9240a6dd98d96e8111ed4e6fe8ae481cc221394b, 0x2994e4de23f47371c68cd1f602e71295a36a365b970704c70b22f8a816850b5f, 0x22c8d3bfbdf3637a9631e9d1b08506d60fee6945b0038eba8f2da85f10fef0c7, 0x281c2faf2a2c449bb40a4bc4738ea64efec118d34bdfb38652fc86e55297a33e, 0x18c045cddaab43389344b4efe95254dce7d25f7d392b05256c2b949e47caa3fd, 0xf89a7f1ac9fb37b2753c758ad0265c94effe7e7838c5f03696fbe1ea19cd62, 0x17aaaa6bc71b2d1aa0d884b00934f1283c599011e96efd46d4d602d95d869f8a, 0x2913457175241255d94f002ec50a51838616f2758d69723a91bf0adc46fad0eb, 0x12eba34c52c9376522f8008a66608ab4f08401aab85d16364791fdf91ba661fc, 0x135e9379693f4edbe9fc86844938a52518e89db9fe13e457591328728f15dc08, 0x2f6bb4e91820b1e1367f83134ed632830307065adf75aeee1666d3a59beaa76a, 0x13543a98e58b1b6df98247f452e000fe071ab3fcdb0b3e6b1a919ae352352818, 0x2fd81f7d844b99ac61e8f093dc65fe0cf45dc2a5cdebe96f00b0f43bd0b7d9ce, 0x2d5552222ced4e20cc80371a0210411e95180cc4b310eb66209c2a46681a7f07, 0x23c153388be12196bc1c97d88d9a18dedae099bcb0f1ffa576985379022a1b21, 0x7f0d269eb34dd69addd5def5902b9a7a96dcd173bfe460828ed398efb3a3afa, 0xd511691b6ef7b32d6b64bb70e219826d105c0e3dfb905a8b88164b8e33f2ddc, 0x287dc3609774096d2b9d98c6f2530946900d9dcd05f003de1d2f8b3cb8e7d1ae, 0x11531b14ddb49b066f1129808f043e3c9d3f32089e3aebcfe29ce49d93d0d759, 0x270c07fb85871f3017c468b3f4701c42c562bb79a2cb74a1b63f857090933181, 0x91cfd790d49049722d482129211f0aec3a10af3d1cbaff1acc674f598cfbd2a, 0x2e1f9b5465ea5e84c8cb259ba5cef63c7f78b04477beaf3b612774add6325cba, 0x64d5ae70d4b8574ff3077e835fee488017cc317ca8af262163fcf9f134868d8, 0x18dd9456a767449c657c3d5663eea71e54e5eb5b381d4e0158c71ca0e3a8fb29, 0x150f8b58e0635bca8e54452f3e31ff5979c2122e2ed6315c75e2e1efbf4d953, 0x19c1f822135fbb5932baeb862261d37f58613c1ac6ecc6d1a985a546a52e6142, 0x2ceb2ab2576b2b66de64c9a8c564869f79100a783d4aea41e74f436547cfd630, 0x289ef304a10023e4f2d4e47caf25766079103e5b7059fadcc41a475937ea47b7, 0x106455ac17ff5b1625135663f28627d919ebae910c697c940e967e917b66e3a9, 0x27e194161a1d0de454c9f47a47d86289a1324f3069e346a0a14a291ed1f50f78, 0x3ea3ace131a580c737ead77275aaab1fbbf35f957ba5ffa40e3190117ffbf19, 0x108e136f6c0a7016aa3c91140178668f8be92aea8bf22a58a60401bf037f38a6, 0x1384b56f69cae939300958285cead5cfeb1971f42bb735852d21f3f3ff2e6bd6, 0x17afc5bcc3ae14f0ddaaa0ad7f068785c2a88672ae2669ca68d553f4b5611da7, 0x2af2b4d6e48590cb6ab37260cd0628c305e9571a104aafc5a30086ed36eb739e, 0x4965fc8bb9707daaed207994c88d236a33cc0999c7e116512fc36c3f3c48516, 0x1aa274f939ae925bdac809179e60547ba9176d0cc4d3b66ec61ea59146278704, 0x2cbcff5d0b52769ee0fecfcef4cdd995e66417094e84c9479856780fb1d940e, 0x2513f2ad59b991b9015b8748901a37026d2e511ecaf12a716643810327bc2349, 0x23fe312e7bb6a30fed6cd00fa0d98a215e903b45603eec14ff921352d6944da6, 0xce352c15bb81b39fe0e7263846b9c0bad0f9adb2935c112a4ca4f58c10b4606, 0x1784a8e161be8cc852574a40c64862adf5ad640468f451ba11de3fdac35ecadd, 0x148af66b8d3a06d4da4bfd09121cab2045cfa1a96e89ee1e23dc61445366f1cc, 0xd28295b17753024395c50f80bec66890afbc458866858474f5765cfbe75af54, 0x9bc568aadf25c9a88404da27c73732817b6aa6c9bfbd4ce851e89aefd1499de, 0xb0ff5b9694dee9cec669862d49825b8934f73deae404c9e5a601652af8fd4f4, 0xe7fcee5bc529956fb4d31e98da1376276cae79503906dd5b3f987bf423ec0d6, 0x57903969900117c287b29cac4b315297d137b29ef2883e39f17edc318529a4a, 0x1dcd75635c831cf3cf5beaedd5450ed63ffb17dc35db44ebfa02078fc55c36df, 0xf235e7fc34780e8005c242cc8428764be6e488c8eb8604bdbbd7e0644361701, 0x1d84ffec4654dde04de9b0a09385d509cc2b2021624a59d274fd0e063b3899d, 0x802cf3684ec2646c535c018305bc1377b437590aad654951519c539c30d54de],
    M = [0xe30a774c353a2cbf244d3d014d1a0e5ff0bac5e242673ae33f1bb2030feff68, 0x12186bb22000ad84b6bf29179ade2d4e7e94ff07e51627e09580571061fa8ce8, 0x2399faa648aedf9024c6ac3ceafea248216e24a9e56caf5acd29ce2546a9f6b2, 0x3add29fe398ed2d44f233125ecd1509e3cede77e6be08b94af4fec87eb3e48e, 0x121af61f4dc5bb24890abeb9251e5cea94770ab062dc0c28bb8995dd8f183635, 0x2ca8ffee2d58f2945297b00cd0b511da167080d53949b3f1fceaca9616b6143d, 0x2c99ef5e064147da9782b914a294b6c14d21ea7eec1f72e8761671069d82a134, 0xd7d07cd3798f44d832a6571c21706758693e5e93684ce2d1a5e8a53e0cc6709, 0x29195117106623ffffb0af525c838686d0d97259fc73a5194609ac7b7b171313, 0x1b62d4b17de67375b58f248a88dbf707cc9d1491bce0095644ca0219a01e40a, 0x2e1681bc7c22d24c433f81dd3a326fd0242bfc7e2bdeb6307e4d2aca32adda1d, 0x65850d11d0eca87c3697b6f5e57f78ca86952bad1c9047dbd2eb6be9e9db30, 0x1a59b36b94f9d723577e504d600c493f2810f0e67112672c743abbb13abf43b8, 0x1a4b186b77cd53f961c8ccb7815d9781cef7a52af64d0bf746cb522512d3d0af, 0x12826e5b9be1c9b85f7c98aaca9ce28a870687d3628d60def0ab3072b57b09b8, 0x237e39980f9007bbf8699dbece054fea1f19766be6101885d421fa3ea46b5348, 0x540f5492497595e13080f02f6b1e653e2e51895160ffd5ca14d26aed93b8672, 0x12bbfbb110ec2971007ddac5f8e36f655465d05f2462996b2114efacac70afb5, 0x2f2ec51c48f8b73c51b264a70d2ba0b46bdb43f933de0faea8a7da2a97cb41f3, 0x26e36544d0b5952dde4007d11818465bde91c4dce65abc015e7556ba58b95ffa, 0x226bf94b86b177cfe7f03103d59e3f9ce2393821954708e7c723f8104a68c664, 0x25e311b37cee693545e2c2efc2043bc073552115b3a065cef13d36547b6b9dc5, 0xf2336e0eee4685741ca23828c34c24f073491f0e72c139610524a56f71aa405, 0xd9bb7dab4a189a3b6990a5526c82b0ae50ba7dd558f951bb9fd343cbb4b0e19, 0x2a4a6cc884cfd08af4b0dbe89b6d8e0e58113207aded8cbab2d075053efe998c, 0x1eb97819b3531ebb640ed6b42134335419101d1db60dd1a924ef9665f7a91af5, 0x226b91e352c65de4fcee112445bff20e4a67af0e110957319b2860d5087406bb, 0xac5b86128ee47944c12af531cf1458042c35adfcd9e5b6a7531973714559de7, 0x22fea1297a4a5f08904d555c2e15d016102a4ed29c32b4bb10809ef14af42c77, 0x1808cbe7ddf2a3684d8a164fe2d150df62206f6be33d577dc5798f193aeed7a1, 0x1c1ccb44ff8ab6da854e9271f4bef26d2ac26cd7441f1b69d16eee0d7a7b481b, 0x1b8d209d66b2c1acbaba435e304ae20662d336d10330beb3355cf801f194733f, 0x11738ced3933c4b27de13911db71ccd58b7b31344ed9153dbddddb91fbdbceab, 0x1e97ce013afaa6e9c993e9cfdc9aaec91b06787819830985a72e9f7c6e516ab7, 0x66ab8beadae7bebd26a33adbd6bb392d6825da37a679e8af9ae8bc4813c3168, 0x21b37be521835c32b673a31d71aed1bc7f3ea96fe1d4c23f14623a0a851a3cd8, 0x1e86ec086805bc7712b7510def651249ba1d491076241d99d00c692880f39a75, 0x75d1aa6cd2b8d181c9e0f42275c9884ae6fa09186fe227e5c4673e56e3acd28, 0x142a83206747200fdb02773e766f504c65af82b200c0e7fd942f92be23d586be, 0xee4683c8da536b6b50773a469bbbde2e417a1cf9be221520af1e755968d7ff6, 0x168e771e9f8f860c49367ef919a00d4f128bab01c13d7dd72ce8d36bc6d1d835, 0xc2a439067121449c1ef3dba6be1ff84f6ab7fac4bbd54ad7539e61826ca1971, 0x24cc6751894087b831598b5bc7f9db3cbb48ce294d9208e1aa436cb5fa2e80e1, 0x33cccef05b0bcf7b77aa5560a0f949c90be5cc2c57122f9885d24a117c63f98, 0xe8efc85cfebde295ce589de60aec0db43c81f4be7da44eb26fa4b71f7cb7ee9, 0xa9d7ee7ee91677affd3ca4fc674625be897df79f82ec438e80f1e000c8b1f70, 0x9175b1fafacdc0e62b5f95e6ca67c3ffc96a26e37cfc734795b92f1e46124d4, 0x3016b074c814225e2d5c1091a8303eee4be476b1458ad54c16b4e1691f6b4724, 0xc099861545e013a687cdd49a3a296a8d2c2e99691c2535da712d351d5e63c10, 0xb71a06bb75b0a10bfd28a3788bf54a8a144b3287df9c591a2643c4100fe388f, 0x14937879c4c7127644c765b6362f8b98cfd32f8572d7aad9cc329bed5b507a69, 0x28f9e0058ebcf1591bc007cb02ac3acde0851427db20c7358dbef9fa9c57c2ba, 0xdf653524fff92dde8ec1c9a51c1bec30bf36a4f01e9b3b62eb13f8ffdf7b8bf, 0x2dfcfb280a3d372dbc15639eace45c0bac562c44e292f1429bc916578fb0bfd, 0xb345890b33c23d167396c583d12e4f3d9efc904f261202512350190ab1961c5, 0x4f7f1fafee121bb811344f73f54f4a3583076739dd9dfc462b3ae6343c93cb0, 0x2cc3d0503a0e1da952b081ba5dc5b117e646bed572a645266c6ec3ce0a1474b9, 0x2854c82b4b5f5df6dd3872e3f371372de0d12e16e9108766920b5458105e76bd, 0xb1d810fcc721551e2a596e9009367fc6a924857ab29b703207b08c95ecd001d, 0xb6eb2254edfae1d7503c3518e64cf19f3443d6cd03b71cfbf1be5936da4e046, 0x210a4a80e6eaa799f7ce05752bbda4d4ff0520742c943e1efeeb12a91229a5af, 0x1c1b2cf11f0d3a3a121be7d0ddfb24dc71f54b9bef943aee32963966922a8399, 0x1574c9e5caaa8a6a7fb4894d2c45d1901d1c42b3214fe9a72fd3cc668e399f76, 0x26ed5fff06ef9e1942bd3d0d3ba6848e47ec045cd26f93049d80cbfa6bcc73b0, 0x59de873c59806f55114bc3f8309f9b64cfcba7434aae220447ea0e9c4a66da2, 0x17e39ccba3432a135c0075d720c649562ee4d31b6da2e9c90bd72a039765e73, 0x2ae7f1414f1443735318163e1bfb1e1bcf5c271f37f6abf1aa86766b2e59e049, 0x12ea921acf5b8adc6a4e36be85713576d658099230b0b1766c666f12d92ab142, 0x1815d4c2e6a18f4f3fa538a004146d7f540fbe80a4605857714fba2795615df9, 0x18f6c40e3ccf885804b374433af0a962b2963fb9aa01e8bae8cc834b3e17a31d, 0x11eedbe5a5969f33446503494b469a2b83f88d3aa477e5d6d7963a8333a61315, 0x9b63c75dfcab572d280b057fbc3640d35dd5f16244863ab8a31e0956da8802, 0x9fcacc3998065124de01bf7c0c8ba26ac4241f1f7deca1eefe5ef3d5015e3ad, 0x1a9ab3fc2059b0cff7e3cc431f7db45f59d8f7f724cd10a03f31a36638f8b52, 0x19bafd0d7942b839f36ad3d70d9c87b55674b9bdee02a7dc30e4f99ebcc1d94f, 0xc474824afd2a880c6a85a7b7a5a434ac422c7a63aaf8ddc7c4d9325edef40e, 0x3a65a91d35b6e877908d5c419e7850f645f62b1c913765a214bb0f7a2915b49, 0x137908baac2e35e13f86834abfe98d1b54b7c25d6c85fc6c05ec7cded9175517, 0x1662f26cf04f5b969cdd6b93e890ef2b5b1124f51822888dc2167bbecf7c31e7, 0xcd0a4c27de11aeb6460e32fa2bcb289cb83321723155304929eb0ca4eea03c9, 0x2030b7bc2a70905d031674efb420336fabb0769ac0125c35dfe2ff372c1aa4eb, 0xb5342503af446ef824df4df6a088195fb67276657d420e6f312b2628e922986, 0x282a555f9ad4fb57698faa1fc3279bb8c28c1f8dc8c693225bd8520db4313489, 0x174c1a1095e95d4f098c8d60826776c2f73691db37ec3b937835b65b01ba13d6, 0x189ae9e9b162ab1a19d599cedcef428bd1325c78740aaad6715b710bfac4c1e6, 0x28fd36f1c761ea7bce29e6f00067fa40b32e6b318f506b6c94bb847bf72b5b52, 0x5d2f0a3c223122ac01214250320b52ff5a3d242118e19778b2c8cd1a976c611, 0x23fba23ab4bc24d4880ba5a6ffd6eb5050dfb8d0f56476d3a30290eda372ac4, 0x26b8eab0dd0d95b7a8439e0ff7d3438a73a27b5993d81fcece729a824a3521b1, 0x19775ec781fd4089859f6b7f127c91eb83eeb7ec9eade14677b0a6b10b9e6e24, 0xc073eaddb5d3f79e5bf83bac00f37700bd64502d8bf7d5a099fb3eff7d3b03f, 0x143991e8386d62334ca0d87832a0845b48416ef5158c18e7b9db8cd6aee223aa, 0x5fb897d71edd8d8eb1f3b5c823a5882a06d964056afd532e6c88893a25f2615, 0x2745a059d0962f1bf0dde1e1b97e0bbf4c4143d10fd3fdeb8d2b295ee4d7a9dd, 0x12a710de6d17f91af890102226853bb64209f1b41331a1d17305bf5b7b52172d, 0x9265fb314a676b6b3f827f07283a1ed4f300e8d90f967b20ff61f455d2ab2fe, 0x148ab15972a6925b714602710fe9e64c0a015053acb838d0e876a46cb5653f59, 0x1f7f9704cab1cfea2b2471d579ef99d193b234af90e62ca09b5a671c2428a515, 0x1aad11449d6e2c6e1adcf9e89114c336c0145528f356ac049f52fd8cb084370a, 0x2b56c2e44f703a3b143da03c25749367f752b16817257e6d123b10bc85543432, 0xc7513f762b64022a151d62302099dffd51791d9afd3dcf96cbfcf6035a2c27c, 0xb26700fd4e950c25ad78fedb63fcb0d9ba73ecab858c071664866a9096f14d5, 0x173985fe17f3b0fb85de6104c02b46c3d79eee9dc28b567f02ab1a1c0ddec576, 0x20a9a6284cfc4381795e3b06837e9596815fd5b6f162bde02f97db687c8479fd, 0x217aa400b2b625bc36432a545e533124f99c1cb98eb85df747319e85d530470a, 0x148dc9335f621fff9c8d2fa72a9cf5b6febabe1f5ce77689c1a29e393185fba3, 0xecfacaad0c147e0b3c7e049771e6d4072b02ee4d171c0e53224214d17ade351, 0x1365a904c7f6721002dbce17077a89a92bb8038bd27af53333f447c4cf035a80, 0x1fba713b98742311dfb3fa356ff83eef234ce8bf2b0d4a52de7af4d2519f2f12, 0xab913f65e1ceb39ed8b83bd5d7fd900e78511edabcfe62314dd10d567858d8e, 0x8e13c2e61c446b53024d2116ab176c843600d00e676402c4641745158c243f8, 0x1fa02616024cd9bedf643ea36d262d1b24f38a557a77a82c686618c3c33edf9, 0xd7e1eae2cfec406402d34c259e5966f6e2eb261d4f08e29088325a6bb669a63, 0x184e5824689e4f81438567df435f39e1d35a819041d7eaf3af908429beb2bc2f, 0x18fde6451062016edeaa32e40a8fc30751e17e9bac192f8ca891c11f39ebff81, 0x4a572b86105dba5253d7ed1e76d35a126e6718551b976b208f593f08158dea9, 0x1d948e8774b180fa5e1a3932439dfe8c5f32a437657d21277e42614b4c9a3dc3, 0x20441aa5f4d5638e64d7ad9982b1bfcfde158f6a3cd6af62941e05cc8e533151, 0x178a58ff122d168cd4ff11a47280a4b8e5cdb313411b6f6e9a947c7fb577a51f, 0x256e145378d2604db8c509dda4552452b6c4a891fac5da199c7560768d948836, 0x25f64d42a750971afcb8023070f6ec97bb2362b196a5aae2af6a70f2e7b357af, 0x2f812121e2eaccc7d51bf266398d5ba8f601a2aa6d335eb69f7864642177667, 0xc8f8722892a2f06c5ab454e407bd557e9c2ea77ef807ee0e3d89c6785b0d33, 0x407d585a6a7efb561377e5f3972319a3e7285e146c5499ef6c8504a3d0b62e3, 0x11cb83e01ff5803b049a2b59ae9915b3e0045e1db694a6df9de9c4e7152d191d, 0x2e1c292e06b7f8a6e4344f10540675a63ca49e452f69565fcfbcd43bac0f3af4, 0x796a23ad6ed2ac995104a0d3e6c75e977ce29aba1d25e62a9a8a20364ea1be0, 0x1004c5ecbab6b7d12f6bb4caeab33dd56c1f829ee28f47c29fbfbb147e884654, 0x77559473737549dfb2016dfa72558bb2c1c816d7318763a5e4fd516b04914e8, 0x1bcbe67ed5fb7522adeafd1d9a150f8d57ada218db346915c86e6c00c00e38b8, 0x1b61a03e218362204fd20b67536e5e6ca7b96dbb53d53ed1602302988614876f, 0x2d3d269ee324e7c43c11aa84cd15bad65444ef8369df15749a8a6b2c8121e2b9, 0xea45d22479ef5773e58b0fe740868fc1e8b50bff76049d5b6ed5e723711867b, 0x2280250e212be2a48d293796a88ac62b05411012f46a66f87a0220a3dff3f79d, 0x20be703f86d7c0b9dad98ff8bb9fc92fe8ac0a84c6897a75d851146f74840b71, 0x21f8d854091ddb601dab1b01fb30c3d4f77cc3167fa3332c3b32377a07e6aac8, 0xdbd093dc16e73832bde62d05cbb06f8271fa47229470462d8c18cf8a124f9eb, 0x2ff5bbbc022d1b74fe184c064e58d967f1aad1f0926c906a5e356cfc3b81ad24, 0x119816862c8226e9e5dfabf3167b3b2bf7fb3d19063989b24a16d97c94bd53d7, 0x6fbced52576a913e6cdc5c5c96fdc8f9f4e931fa90beeb46d9b3c2d775e1e36, 0x299b8e8621d7d8c8d3d6286cb126b34ee53b2dc9a3697b8380c6e47f5711345c, 0xa973a665693ed09434edb2cb0a971ad277a82b3385788552349ae09e8bd0c85, 0x2de9ee6529e5abc7aee93b794c4eefdd517c4fe12fa56bce06a3708d86336bbe, 0x2ea6b7a7265c503fcb284c2bb19512dae71ef357125c3ac755c6bc6cc37bdb66, 0x1380beac7b062c6b89914a976a8d0b9d3276a13c82c23fa21f4fa4403e3267cd, 0x1a5718f4a92dd8d179b932b0820f65c7bb93eabce398f997324f98ac76323b92, 0x1c7cbf2448de7114eed701b041809034e07b946a0340b777268529d582c225aa, 0x9c89e06cad5430153dd52cc66ae4f521bf4145df048681beb2e06a385050117, 0x296f3a9c104222692a44ad24f0f6fd8190027e0755567e9a7009ec71ef440ea0, 0x18393505ea6230669a8030f6e76130a14c1070a901ba5b640b88ae80d7d30b5, 0x1dca3060a6bbc4c324f7efba22274fd8d1f2560a4eeba8c8b0d38997e0d9c46b, 0x6da6d88c233e3182c5fa5ccda1392c0f89f7c6bec4e60da8df8054807eb0922, 0xc61ec79b106e9dc6494a6359f175ff637839ca53ac8e7a13471c56646180390, 0x2cec67e62320bc6a0ca32518ec81c74363a4b6d259bd275a63425d6cede468d8, 0x20f11ee81d2ac9a9ed1cac61d9cfdf10bf1b49cdfbb6d232872a1df1427c1839, 0x125478c8973bc395b648c822091f8df469504a71ca4fdf1dab59a708d0fe4719, 0x12b591b7af35ffd997b3a613687e449225625dd5d101cef2d6f2af02d9dbd6d7, 0x30544eda9c322c6c872671d667fc5fcf09cfb8d34e8e5812b6e738e7ab40d8ef, 0x2110c105efb481b679ceb2f112d6ea704442763ae2ac65edf8f15cfd169c560d, 0x8fd4397aa8b3a84dd1ba4e2d0eb7c6d1c5eda1f764814b5ffe204c8ec735606, 0x2487df9d5e066b76ffcb2f0ca190abf5fc1e5872c4b6a36a46870e9159201010, 0xaad68c20fade1e3e2bf70fcef4b550ba00d6399e20d83402fe09b52ddcdf527, 0x6301679b6cdb17aa6c212ce342ecf681ab7cd96bf0bfb93350368004d97c353, 0x1e151fedfea11659c189a31ba27f2ccf6956084188eb2c4c99b827f645f1db61, 0x291bd9401de20916b9002a0066114b3bfae4d3c8308aba4afdccdf0aec12d66a, 0xaab27e6279952c7291f036918f0b279d3b1d9f8e4e8ac380da77ec2fc24ea0, 0x1e8ee641308ba6fe5600b2df492cf2f14f9892ba1025826c53c77aeb7bcdb04b, 0x276e2623828949e6a2fdc917e2ed45dce0ee503cdaffc9add815f6d1d3c4f9d5, 0xa403e979943b8d2f947f6eda6d41170881341bb5e4fbbb3b4fe3dd7dccdd777, 0x2b0696d45980020a2a421073440e3a4fd39edc5288e6900a5958e0cd81e0eee6, 0x2f9f88fe9be36457e8a546455aa00a0f5100a7f32580b78f26a77bd0b7612181, 0x206733e327a64b78d3c48b6f7580d0887c1778343b67768859e2532d7d1c46a7, 0xc272d10af2ef78a98dff7486c49d7505edd88c922e5672a3abb15cc49f4134, 0x1a327ff2c46f5969fcacb463506e102d682502381fc3f999b9ffbd4520ba4695, 0x2c0cbbe46422917152ca1906462bcb5a13ef536322a8715237da09b8c594cac5, 0x25f4103521e36d55e418162ef8ebfec6d45695520ef47b8548ba38b52a27fbf5, 0x7940eb04b61ec5341c1702f03993faed167db6fa2cea92290cd821b15fe4c2, 0x2ae1ec9e09577c82c97b4b09142ace51aaad1df7dc352cd4e5813d8cee9c98db, 0x1c97fc775f962fe05a7b66346b93c3260c8f6a90a7f5c63223a3386e19852ead, 0x27737fcd76dd296c28817646d30b1168c4d00e1f764c4565caa3276defd15c7e, 0x16b61b242d41e1975843309a01a36a14397d7c8e7beb4afbd9233b453aaccdba, 0xc75ba60f8e0f6afa126e75703b83d9908116147b8b2db45ef24f3156b8f1855, 0x4646253380f4bf642972ae81977779454aa0833fda36b1822cb9c09719e3dd1, 0x264625c74f2a3bbbdc19481b7866757e639c124b4eb560da531fcef99773903, 0x9714e717daa3ceb3e9794d24abcd172831cba18066c4c048b0995e9e6df1dec, 0x14dac9059c9e78d96c7ef807ba342b946870679782231d2af0f6e4ab76cbd101, 0x129dd677c1f8aa2d36d2a7d5340645dfac34a64ae456f91b97de9f8e91313615, 0x10879ceabc3ad045d76f6cd5b26b56dc47b512d6509458f9ffde8da79e6649cd, 0xf7c3f3cc96ceda039e43c86c1b680c77d6f49f50e94de23e4db42f8e9caf7d3, 0x10bd7824fc1b883b3da0072d2c6194c4a1e5957156594e908adbf6e6b1912b9b, 0x90da12e1595551d2500f90310b7701df97676404113c33e475b2e7749adb613, 0x24ceb0766de25fc22789286a09287be740310c41747320bdf2eb5c956e040356, 0x1c7dcecea59e6f7beb6d702e2fe74588415d30e5dc09970bb2d56acc8e08328f, 0x110a5e84de09209e9363c03c22b537ac6a7aaba2f6a9d1a1f6bfab71a960a583, 0x13822dcc3f6271b71549c2cd917b859cdac36af6848804d15a354d4de0f67ef9, 0x85e380905eb2cb7e753d0ab0ff4918b232c734418b6bfe1331de492fc76b21c]).* from "../poseidon"
}
