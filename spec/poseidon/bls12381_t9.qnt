// generated by tools/gen_poseidon.py
module bls12381_t9 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 9, RP = 63, IDX = 0,
    C = [0x4a005e3574f4528c437c8d729634bb5c6a28d703de81eabdd82fc84130f97c57, 0x68aedd96207c352788f82ed0eafc67097bc3951a2c180e78c89a40d42572ed0b, 0x3feedcad2d26727fca17b2e25229d9bcf5e96a2fa62a8abd2b8f4c76740ba685, 0x30f7c11f3fb6f936f15f52a1af13cd8f1bffa05968b40baaafc6badabc9bb3f3, 0xaca8089e1307a3eb0e3ade44fc14b153eb5c9dbd69bf8bf2b6014447650837a, 0x6c81c17accc2bfcbd7bee92b81713e53b52c566faaae748a7da47834f22862aa, 0x44d47bc052b17c02a726f816ec96a4258c30016b1211f14419b3200f66ff6bd5, 0x22f6de2279f8dd3b77f886a25148976da49b2bb9c47e8f4cc19a5f001490cfc6, 0x548ae7476a916372f4364a0a4df710821be023eb62c0e08f34c148d8f31261bb, 0x388ad5530b5363e726bf0f8da8075cc2a0ff9dadc40b6acacfb2f55ead0881c2, 0x23af6d204f501f4c6406c3d09f630a29ca3a9e28ab619fdd13fa2c28db5c22d4, 0x4bcf4d226975a44600985575b32f9896e381cb76562ed26b9c0a5ec7ccc6a04f, 0x6d33f59b985ce4bb1569fad58e28bc165469e0457cf4b1246a17a1dce1a55cf9, 0x734c6186575fb23e7c67d3e52984753ceeed938aeb3da5e408100daebbbd5f3c, 0x2119b19a552ced32849fa4e893d881c3fd0acfd94e1d46adc0b20ced87238711, 0x1b94a17f937bca7907e1bc255f371f8adde6b91791d7d1ad5e7533ad313f9be2, 0x6f0c1570488aa013e5417058f4a6715a0912fa4392fe606ae88b2cdfea3a7c38, 0x1d2f60276e8cae1882678a6ba12428d738348da20d53747c98577b8af7d9e1c4, 0x2564d4d280e84e2d782251ca40e6a7e758160940905177b50d5f84a523420773, 0x4b426a779df1db2248c9c584b423ee52eedbaff056df5ce49f8566fbb6e72d81, 0x4539a9010cc7082c4be4912089df094291f5dc2b6e494879e5bddedb28c2d753, 0x20bf3c244baf59827dc29afca2b2081af5fb0e79e6f06f4ae88c5da68a6c925a, 0x1c701c35062b13f3abd59bec84f6d013c6131a5d249a3bf476482cb226731816, 0x4e9006e9b5b0b60690d5ace076b3dde8d71d3f07bb4d526543a30a9530485161, 0x381cffbe552ff75fad3aa075072c72e8e13a5e307ea277a351a10dac79cfbb50, 0x263111cd5c7b8e8c356ccef2026dbebed09d389aea78067775cc52a0c71d35ca, 0x19ed0b4636ca56bf807b2c641c3318cfae5a31f28e256d6090acd3542a401e3b, 0x17ef729b65e6a1eef36fc14337e4c5e55ece330f87a5a97c6d4dd7d5e4e09439, 0x10d7be41f478ea5842799594c5de95b57fe612112c9ff7ec3436ec47be7aa0d8, 0x535d0c609ce06d1e0ae9298aec0a04d31440e2b70a1ec7c6c61da4792a51e8c8, 0x6483526b2873ef7e075d53bf6b9aace376c33a84b56a937b3ce33365d949e950, 0x5ee5812530c9976a6f7194677ee88377ee35f040d76ff7b0a0ebfc51096f0041, 0x9aef4877ab5c6188a6481be855c6bfdf73df475c85237cdda683a05518e9add, 0x6ff41673db4c85aef38af9ace6ab77cd1821ad90ae6615662b2b6d815778a679, 0x4ecd29f277f5f9939c518af9645b083851f4d6812b23535d484d53e600a3709c, 0x2f3c9a7954ff767012c8cf8aa85ccbcfdad8153c3d95f06d219025195cb4eaa0, 0x4cdd29fb5b006d3b569dfb17cf8e92ef1fba40c453cf7e421e83f7830d458bc8, 0x51228d6db9237dce054079eece3c1b9db075a0db5d96e24462adf1771ddd2acf, 0x16cf33db98523fda9d49e5dc8b1548b3ce92e02d6fa0add63e1ab7bc5368e002, 0x1dddd4776e24af3a7b7e3d9cdfda8e5aa688ce1c76db0c6a66a42f65cbaf1814, 0x5f9ce1b98544c4bae6d9fbe69bc07bf94890aedbfa603fdeb90e89cf2075126d, 0x6d03574a1c07fe1613d94e318a6f4e72d1c9e14f4c3ba00cb5599d1541f8f445, 0x6a55a4c550cecd28e65efbfdfbe18fe37780378495c3bd5fbe119da7416a0df, 0x23201674ee82b4b75ee913ab9b2e0b0136b0106700215f36884227873c302ef6, 0x505b150ab7d096d8eed37c73b1991dd71194b2229feeed15a23e867f18c9e5cf, 0x4e1ebc5702a8b6d6a1451d7630220d480dcea6c6cc116440c4c05877dfe5aac1, 0x690c025ef3f4dbf06bba050c171118ebcdcf05dd02033a7574b8f9171148308e, 0x1913e7b986643a5c52a694d2335d580edcb9bf3f0b46d47bce5d36d1f7114618, 0x34e7d2c657c2eb21c1e828e363e70c49adb8652f875f96856e85ea6896d2949c, 0x53076cca2de6e5d4ef891c1842b2068b9cf492a98dbce226f6a6eb3bfcac6d, 0x297fd80a12d302fea05859390e171218cf7fe72772ad783705acad840765d0e9, 0x5daf961e3789b508fd782840b50e3bb5153b11ecdf95223a0749d984aa41c97b, 0x30455c8446bf695dcc3e6c429530931668e2bc3ca61a8de100787167492f9fde, 0x346007593f2bea77fad0ae70a57c4f121ad43643daa46157b6aa0be5ecb1805, 0x67a2ff5af060cc11c514f48d5dbaa3d906f06e6a0384673dc90f6ae767c57457, 0x31a26c98f9c5de30e6e1843311080d938f70fb50fee16bb0576135c165c551a8, 0x2b47ba8a5adb7f616718b27c4b87616e07e9ffd3fd554833597f23e89c06a62b, 0x1f357e9e7006762a7f5de4caca8f8086a3d4c263c656a2b126cd18d2e9786f2a, 0x437d08859026de696d33e7fb5a1e2432889067baafa3f3f67c483abc05c7b65d, 0x67262ec1919d6891c3ca3b66fa5593c17a073e8cdf11eb949f3f1cdff5a8da79, 0x229b7a0617ef65c656c1531839bd86f454c1bc36204a700b09395dc6f6740a5e, 0x4a999a0a57ffc20c7d31109b17c3516f5e36de85ac624313bd516485e574110c, 0x68aa060b49d14ef35fd63aa004e686d294b1a9588437dfe7911189749722c38b, 0x4e0a6684f097447b2382f2c6875f93bd183b6cf4820cc731f70bfd2f611b4fa2, 0x2ac4b311a9abb5a2928dac5565a67ee76dfbd2bfff04704811def647ec86fd5f, 0x2655fbe3cecc2b8695011cf99f89eb9d9d25d12598b0d03fc6e7f73db1e532cf, 0x53dad42ee4426064c9eb9eb8b3cdfd18236598b3f1922e6bc74b1e6826ca6e4e, 0x170f3ff082d21f593cb67be780528881628458c77285e085ea1e62ce2cb5bac8, 0x44ae7306e94277d3493a989bb00181fa825370bac870de37c8513e7201c63c53, 0x105aebb1c898a2e9ab679d0ea0ea055ce3c9b90071c128ca17af588470a6d864, 0x419d34877054e160b6ce0b57370fcbb6041337b215343d3d95c7062b7bd8d9a, 0x673a695b146fdfe7259023153b905eea978478af5d543d4755420dc0a80ce40b, 0x3bac775b50986671239899e2703d53c2e6b6f0a07147895ccfe516adf6586e55, 0x5f7309a87d3f41a367fa486a1605a1a2c267bf9809dd1324f5e4a0b50aab76a2, 0x1433cdebe347653aa11f50c0bb41af60dad445f3f84ce17f1dc18ceb741c8635, 0x72462503c407fabcb925fca6a159bcc4d9afd7dd70ce0e37630e2e5ea397b47a, 0x4f7d892e18871eb2790d0ab241979e0457cd52363c72cdabc8fdaca1e805ffaa, 0x2457a7c8934145ab8b275c07d4b3bb259720f761beacad9f03faf92a39d78e82, 0xfc5babfadb44eaab7d123d7d32e5159f28d223de0627dd7209e9ef9585f9a5a, 0x549d7d438dc944e99128920d936bc70c76f6634c9c88e1dcc632b7d382b6af96, 0x5b2f54b403ae103d4a1f293463f5bf19becd5ef5e1f2a4c7b68b9b0b364db7ed, 0x34e42c8aecf63c3942d562c8bb06690b1d36fd213ddfe30309f69fc007cd3be3, 0x6d518b6f2510f129c7568744a45d5ec3793d5fc8ebd3f975edd6d29845f3b17c, 0x56870f77acdfbeb03b6f4e96d4ddcac75ab77e1f346149d24bc99f719d8b68ac, 0x49d38a0255821728355cce86db8ea46a5c9b87e740fdde76a5b87ac3e6659aed, 0x1596dcc6d389f147e48213d6ce4531c7797e4e91453b2ae06be79cb3bc1a80d9, 0x43141558062b84fca74580e1a69788f9d2d3af9771af02f58089bdaf3e9fb89, 0x5fe849296ec3daf4c40f81e3aa66888d2e16650f5a2a32483eeadcf32e916741, 0x1422910ab49593cd7ac0924c19fe79c17e94d15b4f3b299d48797167d3f33443, 0x69dcaf3ceb787f4a337db5b8372acbba79ec42fa8ecbb739611ff4b8258bd814, 0x7326505da4655d44f6d0cd24b23efae65a4ef9f10fe0b71f09fda549690419fe, 0x2ebf645a61630234d1d4036ce07f03f40d3e3231b6b8b4ef5fbcb303e0f63f6f, 0x6756cd4b122f1c329dda30eb499b11234217fc285cf0a72e9ef4224a49fbcb5b, 0x5251547fdf05f31aa128cc9fae9cc7ef3167a5f21533b452a07d62b445edbb40, 0x441b6c26928da1f956ca36357fa88343b973481cfa98d0f44d152751e3058b29, 0x5b3d289083a3fc6cac29d48f2d40a9df83dd12242101dc37667e1562bcd69054, 0x6f65e9fc16fab5f8893f52e75cc2d4f34b2310bfbe2ac2eebf4a0e4321729851, 0x612579bbc09743996f37c3e06851ca08418045f9cd2b62f645b0233e1902fb50, 0x3eb784b1a78bbf8a09e8061461349187cce70c70e9bab06841299d81fd953fa5, 0x46a3f6cbff0338f8ac6cf8d63832e8a4be2dfaf485b8dd54508254e8f96c42cf, 0x4cb8027b3e06c3e7b757b37228f55de892d0cdf20d381e82152e790d2f22c96a, 0x3cd5a07f1e7f3266e777fff4d5fd34d202b81ce3f0cd8238edeaa2b3c894a11c, 0x5eed516c986f72863fb48dce6cf18f18a1ce97d8df83b6683047c298fa13f3e5, 0x378e069db98004606ce5d3cfee3801cd6eec8f25e2bf5f35239e6ef40e5adbf2, 0x524db4d3a98e9761c123acb8aa6d149e34e5de7398203528c970b81df1c4af2b, 0x4b9e5da860c0e6b91969046010ac5611ee4eab1f776241cf34d338d962a0351a, 0x600609e123cedd4599741d91d587bc13088acb0106ede079ee74cc0a07443e5c, 0x652d6ec65aeca98480a3e014bf848dc129f307c19fb76fdcc21168d2fa8d9486, 0x5f81551f60eccdeee9a033dd43fecc521e04ce93f7532c2361a15596e3e319d, 0x31a87481be51c7779b4ba27486900684d72ec348a78141a9d5dbd3f8b34eb3a2, 0x3893060c8c1780d39df85f7163cc95a42c826a428aecab4e91b4fa420cded0b6, 0x48b38e617edf015ef2f8080cb47ecafe740924061152b6dc2b33e47c88273822, 0x6f007e9a7c98d81704dc10fa9f68d52e059bc0821357d7ce86711f4bb26bcc1d, 0x53eacba66428b1be2ac3e47efbad5017d8c749ad0ab949889befd03d78ec58d, 0x62616323c0b858b909551c2f6feb2778f4861c95b4d3d2886ea3cc940f57d1ca, 0xe30a91c3b5e88eff8a8874bbf36d1a2670ea142308c70a136d2a94b72e4dc6c, 0x67f7b6408d454b54c96926058c537cbbe5ddc7c460da1a83b245a55c17f6921b, 0xe6b88c61b128b7bff8d3902a70b6bba20277fe3a2ced5b07cf6eec9a63889f4, 0x9f436668605492ca0f434c646dcfdd9e4a7d60a4262a8501211eb9828541dcc, 0x6620e5b3e4436b9931f43fc111aadc6c5aaf9c6725b39add4ed73fe0d8796bca, 0x51a2337cbc1a323a2a9d8817f0f731b6a6855e0d1513e392ffb715d53d9ff631, 0x6921e749053bb83774dce5d69018f2aa407452ef771bd494a81d80a03869a474, 0x6ff5f2765092add3d617188c1c77d4e5c95c74d55e7f6dc99b1a76b4cc474a6d, 0x1776c8546ecda3594d0c6b0f12419129e048abd3aeaa0ad051c7add4c660c6fa, 0x172eac13328d63674ca59b7db9270409bb35ef56e94fad617b340d8200c99fa9, 0x1d0a1ecf9457c837b564851e100da121e3441713f79cf5727710fa52f835a19b, 0xc40474d68629db1850cdc5beb70e7022edd4dc60b44d4ab9ff7c5100b844bb7, 0x2e47f4ea69212418d237857bc55f3fa0d8fa2550fbe520e7e61edc0d64a9a279, 0x154be4aa0be9bd841b4996751c5b7c7aa7a911f60604548a251138e801f1e381, 0x548c97aa10559e788f2c901e9b0ef9c334ed96e5ce062829d7157ff17de5f7d6, 0x59de62eb9962a2ef22ffe565c5ac6ddfae6ab7b10354dfed210b1dd4bcba5197, 0x39c2f43c27a1c3b7d5e48b498713812b03570e4bf8bb1c7bd427cc1203b0df1c, 0x15a5f09fb43c500144095528486d0e6842f246b74fa1b597e7600b8be08a6739, 0xd4e7e84a5f7a2ce63d799da3daf201f05a923618b755b1c83680e53236e2357, 0x65655440c4c79d936f3eb22102f47dde6a83ff99fda6d7edbe87622061985631, 0x4de132b7e0f8cfd4e232cd9c75da6db6649b9cdbfb650550b11970c7975dc1b, 0x3e69a515a5fdfff515c2fcc12143e804026aa8da488b08c0a02bf0f1ab35abf2, 0x47562886e3a5542255517819bb79da04fe011f8c0fd46ed059248256a8ba82b0, 0x538294dcf8cba60e98f1374b12f6ad5e2a663f9406be1d8576d5d7aefd2563df, 0xa7ccf758b2ec59b3d6010ac965fb814fb20fadab11835d65b85b987d089f309, 0x64404d330aff70e7e9513c6c63d57f9267e6518c0200f665dabca0439b4d1fd, 0x5a9ebe9763556c1d3f69bfb0bf9ab140ec4ff5535bbd47ff849200397b7e7e19, 0x302a7bdf2d0bdc0c7596e74953a94b96bfdf6830005acfbb45c34c75512fdaf3, 0x3ee3ac9800ab8ef189d66f299eb5de558812fe654afc0d27c5d4d530116e0340, 0x3507469be0e9ff4d4548260054bfb439ed530b96758fc776321b94339ffcbf92, 0x39d5e913b588af1f067e0aaf8a7fb8cf17b781404962fa1d3102676150daac7c, 0x4a997da42931d7142b24b53f6128e3caef90084341535e86152ca528789c11b4, 0x449b776b24425f5ffcb3786da947477272a2f04e9dd5ed902b03f3f9ab11a979, 0x233571b0999197a0bead78d473910d53f2b2c10db4b715a0bec2ef42ed6d2d17, 0x29f1a25ac2cb371d04c942e573ceee5b8a62a04663e4369f37deec61ec18260, 0x3b7b75eeed575dc1c77075e90594e0f366c22bd5554248274eee6bdf32666bfd, 0x5889aa01292711165c1c4b3b34bacc45c6bd055a188d2360d341093c0d6198f0, 0x73c841d75d827a33250ae1a3671d356b912cd471d4da777e38f13fc52d7e4628, 0x12eae09c9b68d6b376304ac27b5cbd19def22cad5d0c7ac370036763a2f917c3, 0xcdeccd2049b25e2b21af6c47ca2bed96bf73e2cdb09ec9c4e186cac44b82b73, 0x71d61758bcfdb69722871dc3e5e6026b61687ca3686b52c94f7d5d88d5243331, 0x50ad3a788c54741685d60c38d2f0a49eaeec90c1e0cae452bd5643695c003ef2, 0x62cdd29e19ea83bb9c50ddec6db87df8830ee0587b9501d30945210da37185f7, 0x26b2aa444c804265f98fbbdb62586b510a89821ca4d7f4ab981acc54697dc625, 0x736ece67f1607e5188f45b69e0ee64e1a032df01d49bd946c639f15c9a71729, 0x1ba5e6d35274357cfa5ce18d026376eb85e5a97e9c2587777a1c1398119a7765, 0x207df19ffcff7f8dc78552dcb870aeb5cb4d54f1aa470af90efafa91a602da15, 0x114b541803857c37d83a868ae3106cec47bfaf375e3638881db585f676fc4026, 0x35018e118fe0202744f63209434e530cd63a179ef885baca4104a253ba32fcd4, 0x68a6b1727b1d33d53ef2a8eb01ec694a0e4b4ceed0bf7b574b1044332aca1e80, 0x64a7d6db6c748cd3c75daa334d07fae3eadb85223b2e91f3b1b2f4af63b20024, 0x27303a70791d0100555106d551b93e3a761ad25771428a40d970be184352ee07, 0x18c5e151df231279203eed7a3c773c4176278375a5969b8cd029706220cbd5d7, 0x5d2a4cc707b0924f3f8ae5e7f709ad13434097aeca23807c206878d4aa5ad3a2, 0x2e45366ef11c9a47705e87ded7ed17d55561edc9dbddc0636f148de6961fb5b7, 0x6efbe34f70cc26918831639f333e74226b565cda3d92542ea68e2e37585b22a0, 0x5511400275bdacc3d544b581ab5f74e1e0a5a6c21039463fc4c153bc8c71dd70, 0x6925a4790ca23275a8e57e3c1245c6e09df10542bfc23fc374e4d90c3175069a, 0xe5c1fa452b680b8e3480d12293efdd13850160653a79d511f7a7e46cd7e5ce8, 0x4849ba016a5bafb2d16005b8670a0834e3d82b93439de9dfa41af1ab6540770d, 0x5b6b9cfb0c670f5f8710649d9714988aea56f3e1cf9ba44081e1d87ecf03fd91, 0x43f210506422b2a35631baf854ef0ce4b24f730303dd9b35ed6fddbb99ac2182, 0x31256d2ec31966744b92c8713f3d20a6cd67982de5093b6489c5e940cbd6782d, 0x17fa492fff74c27bfed85cae52d0d942226f5b12b83823c7789685fd856bb193, 0x55202ee2ba9e19b21a384fe6bc08eefc07920d7255a25fad158cd89e7025f6ec, 0x1cbd7a00f5fde3a01e8e0ad2f4751a0c3a3b35a65ff6e2ed3b7a2bebe48a9100, 0x27d5f6aad92d1356526869dfaa523e2149594e5e1d39d02df1e0dd56fad0714f, 0x470d164cfd6e3294f8b6097c01bf5aa2de2b29b5ccd26d2b01daad9fdee12961, 0x4c90cbc88227b824b79b1aaea3f30402164478f563f4e06a792a80e2e17640d, 0x64b53456acc7919629a7d392f8469f5e00f7d4c2056d94ab2249982c718b407e, 0x642fa48be70706596368e0a78fb8e121d1b5b4e4ebf177faaefe5c75ad73e5c3, 0xa8f82e6ce35acb82da373e0874cd760d1d3d67f868074aba0ebcb324fb48661, 0x1604595d8978b37db8235102180f39b7c343d3ea1da4bcaf0c82c47f142c7e0f, 0x641f87b6d978dd6143c3e2ce4d5d1d2a0b3054fab646c02c53c1e2a53c552573, 0x4d3d9d78d34beacf1f6ef910231dba8c7a6a4587064fccf2b429708e80224909, 0x41dc590da2ef303e4d1fdc4f61d9214312d84c177f274b9c923009163e84ebcc, 0x51914c6b84f9f7dd9e2486d48faeefc763d37dd681c0a4a70dc3e7776d198a6d, 0x2313c982850c2a7092c1234abdcec9baa95eacf68cb6b829defd6fc5c45e9264, 0x83797bf4322ff1999500883fb160c4a7874ceacebb31533bce6de9851cf91fe, 0x2e4bc1afc9023321f5e7c4c11e94944cd7bc2865e56583b0c3d150df80ecfdb6, 0x3eecb55061051d321284cfb8cc1a943899b783fb792ac85fe5c9601af0a0ac8e, 0x69fac6c7f3713ce9b71916bc9ab65dc160bc96d7023be20d30128abea175f806, 0x479c866fd5a2bead6046b040ffe7d7d767787eb6cd958edb75d31ee33281b9f, 0x6c896c1c95cfd300106e4f4aaf5b388eb2e7a6824f850f507a2e78f8b9fcaacf, 0x6538e7e2cf08b37caaf90a00ae80a9d82ca3bd7a029b4e2742a1b4421b6d1771, 0x3e499cf2e2dc55f8e99b0958a24f8f02a37b42714d099a874b8014dec85a7607, 0x61f414f60674346183e79f81b55fff3bd356199cd97b6cc00b1a90f90f7cea0c, 0x48d822c873863561ca0e97fd2c179aaaeab27a9fdde300c41dc7c84850d97705, 0xbf7f043441484608737c031ccd5c81480ba4e0cb2407404fc58878bf2951189, 0x4900159763e917ba4d5e83914ff02634586a4181b13786dd31225b7474a3aa39, 0x55734e97ec715d332941c42aedb4261e3f16f56837394fe38ed8cc23db9e03f8, 0x129f899ea896bf8b417072e3d305274306fe1886ea81e5eda375afaf6f05ec99, 0x2286607e733584d4bafabbc81b5eb554bb3d7fbd1a88d4a9770beb485e18d866, 0x69d7bf356c3c69bf513c88215dff9e0d0607ff145c54f682a77965d8963b763e, 0xe4544852c5115fd4fc3b3916242c3e6129d4f0d9dc3b878ce2c82a5d4949554, 0x662e93d05e7beba55d7ca7aa43ab7a18db699626ba9b54c123098a9fa8bf64db, 0x1bb665f605c190f5bd3cf8b146d2ee5043a673d270b90cce8d7ad2f3f4c265cf, 0x24951e904c4cbccbb458d28bb2cfd41b2d6da424a85abe1783832f8b498968a0, 0x15db79617636d5c1db6fd3f3f956f58b107ac378f57b9aa91e5ea5433703c935, 0x275d3ba79f4c25e95d753221cb37f065f8c1e6353cdf5c91591b9538eb936459, 0x26828da667931e03b9b39c3a008114b03e0897869a5a9804a64889338b4483a9, 0x61e40b9930a421baa28e3a16ce237564a6e73a8a31b82b7c4dec3b3a1e41acff, 0x2d7e7f80f3e7f12edba87e758a4f100ddf531de8842ce524897222c216fcfc41, 0x456fa160f22f7aaebeb2adabf3936aa2d653bae9608bc946f8cfa3328d2ed991, 0x9100627e9bf51164cc9e2d7273ed07ee1302395f954d78204c7d67cf273a8e0, 0x357513ced66a1f8bcfa225d673083e64617c2786ef5671700624ce7878a252d2, 0x2e651ada826081e96b830b66417d9813ece5afaa5de94c2646427c8197a5e6a4, 0x2aed79292d7d26bc7d8a421a9594fcae7c8b76021463e2525fb458e4e6eeb8b2, 0x39c4d85af29b39cd9bf38678a61b33460062fd80d6598cd96f1afd944eb0bdab, 0x5f61c00d7afc0c1dd3b0aa27d527611e59e1d85c548023950140ffb9fcf820d4, 0x5757f3827e34aac5e0096f5df83690b966183abdb4e37d1e389bbca1aae37d0f, 0x13c061d15cfb184b5950f83043d55d1660c720d1d2566e7cfde94e122c5e24ca, 0x150b51074bff5b6685025843e7474e8715661cf0cc665c4f6e6df29f02b02126, 0x5714e9e9a40920db1b6106325c194b68d8da68ba2a4eecb30f95301141b93bb2, 0x34c4229bbd83bd7a5119ce35a4e9de0a86d62a0805d67a0b823a067cd2a4eb6c, 0x39681e87f15356822a94fc713a6f9b0e169d6eaed677446daf8a61747a445d1, 0x197dfa8c38bf8c98161a2e65efcd1dc64e31002ca9235d88804b5026b49390f5, 0x4c035f627756dd2b154106eae93f25eef34de9bd5520f78a72d535e82d2f7d3, 0x4bde9853ad277801f6cd72becc451bf651675b54d9d1caabd0f7f5c9662c7e20, 0x394a182d73847ffd7d25c315aecee6a3f84abe282dbde9ee0657379319ef6337, 0x6e14d9e2d1c8b29c54f24bbbb3d487f640c4304953b58c5f2ad809436dae16bd, 0x3539d76db43ab25841acdf71cc6a4f3a7b8b877bc91bb31673f15efcaaef2250, 0x3f0e0960ac1993dfbfefd499b59aae0ba82bd7d2049add864dbe0e29dc7297c0, 0x2f5888f619a2055b9a7fb67fbf9701a48566bc59dfb6674204fe6d34b2daf44, 0x351aacd9b9055ef25058aef98410751e54abbdc0c5f94121fed975676c0e1b97, 0x347943a01d220556a14c4771c7859d506cc81832ccc1d01a00ad803650f83451, 0x2dc6c2fc665424a4495b139de0dcacbe590c6e744e7a526b26d91cd509d04f1d, 0x34bdad138b3cf6bc4184522df3c530e7a926507391a1742ff0508bf9afaa67e3, 0x5c320127fac1dd7e9b117d710effcb1aa33d1e4076cc540697e91e3ce13b52bd, 0x3aff02df047e8db5d667cef8fceca73b4761310137697466d6db8dbc104f07ed, 0x3a12c77e78e2e75aa98e04e266ed01586eda27c2a2c4fb97e38f8c7b7113905a, 0x33a4f1f23700019d879c1c4ba8ddac885367ed3217627d82c828a5984fdc5ca9, 0x2b7e0051a611f80293ac0101464b8e79ed5cb9fde5be9b5e2e6ae58ddbf0eec7, 0x4564be730e934397562cf44dfe3da9aed94b55e60787c94da49cecc40c967dad, 0x3842ae2146174fffcebb96f75b776658b2ab020bab8b5563707b915170a7da67, 0x6157bfd9ff6694967234076437a2ad38a2888b13f15a67592638f2f88f639cb3, 0x167fe706db6c484fe1d5401d61c9154d4d431a219e1073880942dfd09767a83b, 0x3e274fa6c8980e75e0fd491744ad821ace0ce1abde03e85944440b7449b548a5, 0x12f33d074dd80bfa1761d3fdc30cfeaaa8fd79cee9c4f4f135a8095858b32b03, 0xd4428410b7181a66e2733b4e9a2ee934ea9f69a4c92684d6491d762d03486f2, 0x3e752cb88544d0ac739b9c7f49488f3a319fd72700fac0e9c8efc94b3e1b054, 0x47c4f039178d4e093ceda8881ca70b9dda2d879cdd1620e2f796b9d45d79dc71, 0x6205bc6a7813ec97bebcd74f4c635eba4c3448a28aee1500500ff585a9c28f9e, 0x4aa29408159c20be2c2211fb8e139df288b87c94dab754483ba8dd582afecc48, 0x432c23b0719995cccd71669946926e6f299dd329543207131f095a16f6211a0e, 0x539c860d9808b5bc67ab28b78648b7d53ee684e0b159c9b2faecef2c031214ea, 0x3397dfe12f7686d91b9c86020f83da6486d2efc4879cc64a1749a0dba60e2fee, 0x544b0b3fe8042d4eb03e30e381aaa132660acbc0c2452a65f959602ca5a56db1, 0x3791a2698ef54fdcc2f33a4a5ba971490fc73407d95687805d68ad938e0c9a95, 0x46483811173aaf564d62fa10f1ce7086f80b5deb30536c7740629e649700fc34, 0x4a52c86509c9b213aadff0e1de9524133a9ae0819dc2263c8b1ddb7e94964471, 0x60ecd9d2e648b19f4f91f0f2481d823da62a7c68b6d944638a36764e36451675, 0x1a23ef4a84ec7a586efec4e53f585067c33b628d37906fa1242fc466b84f667c, 0x42bba0788f6973aa8bd6bdd924b6e3dce3bae066a749f389a0255ba85c97e510, 0x446675c1017747cbfc529813a4bfd1fe4e5052cd83c627edd2f2dda0c7c5ed26, 0x226ad8d4568532847af68d0565b300d38dc83f2370555e74f7ef498d90fc1ea3, 0x721763addf764b3a90d72e96f18cbe27e98e6ab6a4cde20a224d358342dd5836, 0x5bd863a8173bd7533144346698767d4dad88d06493a43656c4bf6781e83fb9a4, 0x1498563712d45f47508de2c6733c038f2cd157f93ab98a5dda579a31002a9614, 0x4364f66754f2d889db3de9c19bbfe330c0b62d6e9fb681a8c33b0ff76c2f865d, 0x52a76e5d81468ab9a74f6d74406b9f24c362be644eef9b5081f49bde0f613a26, 0x3a458c8cdbe002db2a6cee5ac4ba2f09b2b6e8fe71ab9df000f5ef6d2cd3ec92, 0x205e215dd316a4f2239a86c635fd47838003dee2ba59a957a1a303d1a3a1caea, 0x6028252aabb314bafcf3d7c67c1fde0fd1ffedfc89efb5f881e6b7e273824066, 0x5adb5cd45b8387709d2cb50eb050d707e23ec4c7bf417064a1c235799ce22f42, 0x191c5710b239574d85b9a714d8dfb3d9bd1ac9151f1de75aa66264c5fc81483e, 0x3f5918991ad5e199128bf81efeee8812431e3f5c1f0d95ce655ec5f96e4624f4, 0x2bf025f86be453a2d01fc065a38642f0b9b930e4a478212ffe5e5102caae12fa, 0x306c90955bd1fb9006ec93dd029a8ea1621dcf296643c2c1e09c9f20b1a78b4d, 0x638264399d0ee9b2b8099c92ca89e10de17c53f79486114dc9fbf9ce976e1de1, 0x284b6044e4ca6e90358b4c1eb8c3f817b48029a0969597c327ae27e6a8da23b3, 0x212fd1140a99d677fad9c9c846c6ba4891a4967550acce6fa966db56873b1559, 0x71e8a5a4de7e7369baf6a204188876b43cad900bd2696332305acd8c19ee4df6, 0x4d2baf7fc2539419f5e5e3dac0aec104feed6a60b0b3202a974f8149c5fb83c0, 0xfa414bf285becd223eb85455f2692a063a338c53c9340d8eed53daf27299670, 0x2f337bd3360f69773d2e7457d2a2a49602039425c2050eccd7c90a0de3772b8f, 0x13fece6bd3b3c0fd72a345b270c34aeee493860529b04408b1f9dc5b3050c4a7, 0x28771b0edf9bece61148cc3742bc3a5065a79e39aa7caebaa549a51d0da43a4b, 0x4bc4ba46d1ad7aedcf79de2a8dc032d452185dde767b376957322ad33e89db4f, 0x165f91aa49fe020f126d294301824906aad63111ca3142ca8de030f2250b2def, 0x27775bc26541ae5965ace0a34d74bcb0ccfee3ec03f0411312a64798e6ff9b7b, 0x12d282e982d270d904dda707d915846954c28e0a0be5d2b256311701e6efe2e2, 0x737b3d70109c422e4ab98922c3312b55253bf90dcc22409db4d8531e9332c31e, 0x22057ba5e472a5bf41bc63254c491233cf35894c35408c8ab1a82e8b15ff3b9e, 0x4154dfed1430c71ac02b07ed0468589dad8b37d9fb6b648729957092b0abcad0, 0x55d1ac86c1f979ffb0df8fc3e8bbb7475a75099b01616d2b5ebd21b427aa07a2, 0x6641664e1b4931e1ea744cb385ae294d92948ad54fac9cc67c03efcc11fef6d6, 0x2b66bbdf9cacc569e3ebc1b82e57ff1859ef52b4fc7d5f815e84e9f4bb6b67f, 0x6b7c4450fc82df96075688e3b34bd5355ddd5400024f946b85945cbe91dcbcfe, 0x2372bc0d82a241d0d3218d92e9e1462438f2d8b246b4d8178fdb0697f0beed2c, 0x54fab0c99069055c96cf68d95e0b21a4353b0c63efb9d1285fa909ab54f03639, 0x64cbd586fea07170c57a0d8b031f96958e453c1d40180f495712721b620a6b3b, 0x6e84d40dcfce616480c35d71379706bdb8832d88461c0f70ab0dd3250b9ab8b7, 0x1e185cec2d261c747181fcbd11dc4d3677eda627534a6e0429cbc0230e810aba, 0x4ab244f11ea3c72c06a3a842db44f2ef778e3d5b69b978613cb5b21d57a95956, 0x1b55cc94a36fba799dde633d0dfe20eca411cdc79812e34d0a6e08d05d7b344b, 0x4377e05dc966806d8ae8d482063ca3f991470953429d9739306fc89785ba79ea, 0x170d9bb5b15bb60b5e365e6ce2af0a53b9791946241c6fd0411e0e4c46c38319, 0x30392bd4ec9a91979b07e843bb4c7912e97f8bc1ec064618a193433cee7d561b, 0x36e09b72e84064c85c0d36439275f47c605f2aa5ce5e384d1c9797724c9e6fc8, 0x32ca4a4793893c3567085e8ec3bc4092a463aab9fdc3510535a513be6aff8593, 0x3dc905cd98d06c40d672c502ff4c63b2152a391e452e0a36ae19fdae5b62db81, 0x19fc3ae3dce69d9d55d7f8c4815b667c36e9d98c13a9011fd88001d50c293cf9, 0x60a09f06db6d9a6d62b0dca062bb8f2c52360c3b0d6a6e7603170ca2a6f281b6, 0x9d10910c73ce57ff570f03e564c498d0d32182a0ef21c45a7be4853f32a6b7e, 0x5b0e21a372f63e7a2904054fbd09e7041d539ce38b8610dbc9a2e566e51b32f1, 0x2a8a50838eb793694d78e1133a4140080f83e45cf26b7d906bad8c3e2d1edad1, 0x58cc6a6b4a474a0dfa009e13ce5ec5670c5d67ac564c4087b78902916d7a109b, 0x9b402dfab2d3fc89d3fd6c893c9b654a758ef0d770d6f3c72d5b31197823bec, 0xf30c0d31cc15f1b2af8d86c039245051ee92d894a6a2a8d07d382e8c3213f23, 0x471313f297a3c43a904d92f8454a8a7081013ba3f00407f4390d600dd4097c1d, 0x6f330f3a28b87964d3b45867e9a521f239bd9f7d4c1adef874c19d73ed0e888, 0x53ea8bb6cc18ec35fb9dd4102b00212db5b1ee1c023ef664893c21a642435e47, 0x113dfdaf43f6c9cf4a3367df2714ccec73012aa8219bcf454dad4a637d941fb3, 0x62636592c43009b1d9f0af130e104e195120b7ec44b08b05e4699e37badebc80, 0x261be8bb7ff22bb8216956c4f557ad575268d2961b3d02050d9f3130248e5433, 0x2dd682a4599bd8d18892fc56e96a57a6af5c8ae556a4ff2290c52dd539fc34ee, 0x2cc3459d4a4a2ad65d11dffe06d6bda2a954bb65fcdc710be50ba9e760394970, 0x4a5aa7938b1d410386833cb06b3eb3dbda193c0f33cc27a999be88912fe4d088, 0x544a1a7ce11bd5702d312332c608e0a49b9d3a52bb02349f3e6fa969072ba7b6, 0x3fea6d329d454447fbe27e737e4cb706a57c23f302843370ab595f6663c742ac, 0x3c3a8c77e16540cbd2ccd38dcf8f82a240575fde5403d6e0766b6144d2d27c91, 0x5c51f200a404ad7e050dd0f6d505e36af1251448e3ff29466ec914390a4064c1, 0x28856e72c2f70b38a883999cdff65628cbe0038b11fe9cacdf032d2452967ef0, 0x5e724636fca8b4c6a57e6c41a4162d8a47e24e68cfcc8467e7409eea1bff9be9, 0x24571f240a5257530dcf1f4f8c0a0d386ca685279189443052eff7778eabd396, 0x5eb23fd8d72e76b73eef22c249dd721443b246bc422b8f97634739845877e231, 0x37107cbc0e3d6c71d703cc2969a4a99e2c02822dc9689b6b49324d2a7a17658b, 0x730e585fb3a3afc1662e2664b12f60024eb37e6c5995e9c62711f437818a534b, 0x381406b9813e881a361148fa16073e540d768106a4eea15cb9564096e7f001fe, 0x35082fcb0ac32c821f5438e3b0e8cb430d834dd172fb646a330935bb1e9e587d, 0x2e79789af006bac71800a95926798f072e3fe58fb4117484b58dcd4c8d0a6b0e, 0x296b52f0e19c20ec2d1cc62078ab9a4619e53558371e17ef986dd84fbe4cd6ac, 0x68e4452370bb5f9d39f8cf3301cae8b22675d99cb5681d16cdb1a7c0dfe249e8, 0xa17fe19f6faca604f0d054150390ccc61834e0680361cdab4ebba840c843082, 0x328b23b689f11c2c07c7044f62f9b336c109f1ba8b5fc66c3969a2cd91dc1b63, 0x6f0929f47270abe39bdcb5ae61403d4cf096a2d006f50e461c6ebf5b143769cf, 0x2cf1d836b9727ffa0b59e67ffc0e6ea513693b8266ffd02851fc3d2d4028f928, 0x6c1c387832907c67296c1967b2178f1c455a7dfdb1d489c98c6a67391d22f46b, 0x6e192a55d94c9085ed21f58306819fd276d7b68f9a4b667d5c1927283d8d1d9e, 0x3c2b53ecfc4bd1d683d4591f4bea36cb6819c18c32f92e99b65fe2b28aacaef2, 0x247db53e13989c66f81c82347ba92c06859fe4417786bca0ba84fd65f55bcd7c, 0x5976a81313de37de1843487061f8ea5a1d46d2aa014b368a437ba65d5ecca3a1, 0x54a3a84af0cc578b55b162136b8baf29e1964e31ea4fbc9d6f59da983ba5c034, 0x5a85cbd4ff5a86e2ab1280b0dfdab9506155572616152fd96cb0ae7db588298b, 0x520ab02b9b0c8251aa9f755f831545356b8af888498ebc27ec4c8c4ece06a9ae, 0x4fff0313766327fec668f4f3080bdafb29ac3483dfaebe0bd1d38b18375a7f73, 0x322ad3d879ae872eaa5827a9113613e1f3c86d0eb3cf6309c0c364eb598597ff, 0x51344686769d3e32001704443486d0a990470cb9a73944da37bcb221ae77539c, 0x11549f3134c8ef71927486fafb156b67a1c5c9ff02882710e99a52ca29d8cbaa, 0x8139031fb884b3e6fc04324472022955a01d7f0c0eeebc1ec7d6374a506d675, 0x258f5bae17b383a53e9ce29fa22007f5d3857b55dcd643b059c0cb464f80b9f2, 0x735d221d0254d2b9590697c822a7e39ff85466601c48a416f15bec32991a051d, 0x3a5ba537e8098ed330701881209fc1ec224a8075a1cca52fafebbeaa11dc6706, 0x3ee2ca8df60ef0565c90f1aee4fbddfe5dda73e63c93866b2f7dbd951349783f, 0x204e3636e309a48d90567dccf3c8ffa746800d96465420350e235cc228d01387, 0x40824747daf3b9814a10c1b21dd80b04b60d468c334a5c8779f59a262792c1b3, 0x57de33c29e91d2d1b8e467af64d3c95fc7cd738df472ef735e3b590ad032ed31, 0x340998f46ffb8cccf4bcfdda76e941db3f4de86e398f6775fe7dbf00cbce4d17, 0x1453df53239aa8f3693c89428e1cf9dd30521cf156cd3077f00d7c3dc98af167, 0x20d16b8b64534ef9faa120415cf1ab24e3f7ab4b08a2218acb6dcd21880f6f57, 0x6d8a04b57528abf76bb2e9d8f97332c8c571c476413be2efe16b004f42c88a64, 0x5d24e10d93813435bc44a88fdb2302b6f21ffbfc1bcc412434bf6f7641d196b9, 0x50769278b597224bffe1bc24cb3c7887e195100bbb3a0e80a5224c40b633e6a3, 0x6e70eda8db2af9cfd66f3e2855f537cd7701239a1e37c7e0b31d0e9b15ccf99, 0x3423672b98831e6d51c1c8e249c4cfdcdb49cb987403e8855ef9f31c76472276, 0x38bb122c0f407394d03750279a7e18e18cb520e8d5db10acab5d393548fe766d, 0x308fb8910218c1af6d131931147ef223d5f6ef1231dd73eba781761731f81e0f, 0x72b35780a0e582623826cd95b95390f0cad36633c0f7f0d7eef7d9d0f6736bd1, 0xc0ff49fc2565b79cf6bea69ad969d6e2e787789caba32fb204846fcf648c21d, 0x518ea1a774f36810a45242f7f9cf026eec1c5e6059457d14f05216b9175dc04, 0x67f0fccabfc799ae2f615c451e8204a9a198c8a1fde3fe65e720f5594283321a, 0x7331aca8d1e576483af797200c3f87547e98d79c14ba336db65d85f2eac1f504, 0x5ba22687347a17f9eca7c2a8e8abf0ffa2109c76bccdfbd0c6e7c2c8854619eb, 0x3d83b5673347a90eaa1b8303cf4949fd252e305a95411a0f30ee2b3959eb280a, 0x10769290dabeb2c5d3b59a7ed8adb95ddf4ceb60fdab2977e63045207c79b9dc, 0x4158682f264492c30682b6354b6a487405602c110ca70639ff6882e732b33c2a, 0x10fc263394d54cd7fb81ecb28216e3cbf2014c1bd893c2495612e638686ad027, 0x18cd1323287708a7d8b672bf1e0f7858e44f19924e194d71c56af7d49bc549fe, 0x4549c9b0678e21858c91120d00cb016996cede9a30161398662d8069741debb9, 0x3ce0ba20f25a5953f0c4b9da873972d67278a0d2c71737a9b798626c79ae1bdf, 0x51ada7e8b38f49cea9016a34df1751a1014cb8ba85e004523976439a36b6f7d1, 0x5f5c22568fa88a28a448c6f7b7026d4da2b94b275ff3f748cea85e9511ffb61, 0x616b5420b1bc1581945f9e9b40845aac58d2024cfc614385dae7ee59e515993e, 0x3ff9a4bbc124b98581c14c3e3a10297cde2d29416b1a9bcf9757a2fdc085acc1, 0x46a13bfe26be4d5f7cc21527d1da0e3b8162ffabec2198f2b120415217a78ab3, 0x323104ba790d522d3e2038f7e1147cbd1a7e4875d0a710136f4044d7b4652ec8, 0x683ad7aebbc2eb420f5981df0550507434ef788f97073009a04f3dceba4d4df7, 0x7a10741d823495c9007dbf5a379fe46e17131ec654fe0d14b4d8cc397c4404c, 0x706a9da71f048e94b90c0d0e37a98ee5437c090868d755e2586a24531fdb11a1, 0x270e4d4763d1ae4661281ef1ac6be6b3a08ea19e24499f9f7f826828abadc291, 0x3b02e0c7784bb09618871c9e2be7108631c080b4e99400c2fba57395ab2ae8d7, 0x16ab241b8096ff2642137164cd3810e1f36e0e9cac517283dff5daeba012040, 0x65a807e6b10dec1a3d3064e8bc24b4e312e5903e8eabd8a6d289a28980785ecb, 0x24eb32b7e2202904905841959f04bc5a2d3f494560b8e53dc4223c51efe21d5e, 0x4637b49e29c20cc76b11ea0340efd7113ee277b30936233800246d2a356f6c39, 0x164d7030d64707710a47ac79392d31bb5aada209025ba24a177442b02b4df16f, 0x5e408fac80e06898949c242477f9f4eb70c8607dbb96fb5216089bee7f2b0217, 0x1a766cb62ce0a5c989355495ac85a63e34c3c2bed3a662a75012431dc2e0aba2, 0x61340daa9fa791b10ab4cc49af9c9e715f2cd109d1e2798efe661dd2378059b3, 0xf1f460fc290b9642b1f24128006c01bf0e8ee2dd255225f6e01ef4f4ab27d02, 0x6bdf5861f8ab34ff6858c0739ed93a8184c26b8e347bc196654c4a7696c780aa, 0x1d0bcad1f367b37160b072da43dcf1cb74c274d7f53ec3134ea9a711cbf7e30c, 0xfb759bab453e466af14e033c695f2b2f908bfbc38578f99d9f66c56e3e14fb0, 0x4e4561e7b7dbe86768bb3b0aa3183d36042269ded3dc8bd13fc3a057979611cf, 0x5dd52ed1edf782823e0dfe23d00381a7f4575d72656780066261fd5e69d75420, 0x69c4389c4dd55c41e8d13f08616bd84d24aeebf939b4e63f4235185e9d892891, 0x480ce456437263864b3c3798248901243fa11e6a955a248a7eeab6034b3ea87d, 0x269be2c16607ff5e97048fd288216bbf9d617ccc30dfc571916a485fa59fba08, 0x6079ff33dc53b74fecc73c5575819f92ac5ee82653229900926576d4c3d35f25, 0x4e0812a0654c1ad2412274db57428049e79a56af6c76cff1452fa2cf089afc30, 0x71bc420bbcb2548ba2a2918f56ec79212d06ffd26d23a5dad3e232b934420c85, 0x4e2c9fa6b6cdfba8320b25cfa0b51512d784101f5036cf33da5454d5af94e6e1, 0x26f4525eac0e1fa16b770afca4f4381c860011f857f70680c5fc1bb12d55d1fe, 0x23fa55a2c49bc056e9b87e74c1405d846b5104956a5b66f8d45f266e374052e4, 0x250663953ef182500bfe64e4fd4218fa814f337d5f25f0929238eda371875abc, 0x68f20d2a11fece3739e7684e9c9c09ed2f8a47a10862cd398fd857f31430cc6f, 0x490f9e19a87ae57bf6b21c60985eae2b9a22ff9546239c8b216b7d04ff15fcf6, 0x3c13f2ee58762e0e4e142df8d3b273da7bd19c7c173886f709bce1a480bbce9f, 0x4eb4bba862d4ae1af8c63d8dbf38fe73f42fad24034c85ac10a251d5d2226afe, 0x4b7a90f6eea193a2024539861cc7a609e5aa31b47893205c111613d1775e85f5, 0x6970d0adda1a65e11e54276eab6e798cd864441ec21d462b2ca0821e861cb3fc, 0x3fc6892bce9f79ec8af0285df76e574b347aa7ceb2bc43c84a683c37aaa6242f, 0x3611eb4714f0838f10cb14eee3221b9c45685e237b889567a82cd7335bc2a0f, 0x68e7dc0299ee87f0393ad10841e75bdc39ae2d2efe261a37b5114c3008693005, 0x19e24d32996ff5ef1a78aaa2d3e394e558fb15c063ca51b73f8dc69512056c0f, 0x964c3a6a2a54ba789dc2ae943dea5d44c8fb4470067146fb67ccf88a512bc0a, 0x4ca72caf42ef7370f642866b24aa78c92cd6b7bfa65cec2c340cc7879ea93abc, 0x5149e35fe54626ac6fc1bfa4407fed819677419a40e9af80773bf3301dea71c5, 0x7dd306a4d849b287874ebe6d00f9b35c39272ead5e0b41cbb8edc497b9a53d6, 0x2a8300505efb9fce5801617d2e1b7bc57106dad09b884e361d792995dfc3f7f7, 0x5d5339ac5635ca8c8565e125c281b01f71dd6d3d8cf39e0bc7d126c6b36a094d, 0x4dfd7ff4e509872372fb11b641f4acc4aa6eea8456aceb317354a4bdb6d1d729, 0x1fc68ad8272a58c2d067d82946af2addc21bd4eefc2cfb87d23af3aad7350907, 0x58cb315eccfe8b326dee943fc9dd4669f5df611daa28a649501d32fbf5a5cad, 0x25865c3084475234f61ebc5c02e2785ebfc774cb02b9a451337bdfc81bc2017, 0x5ee9bbb9f9aecd985a5eda9729f42352c3dc834fbb613d9d7e67b2db7f9f2f28, 0x5c2b2b15c37e1d31261e130e8c997aee1d720994fb1b9775b1b11d8920d4bb, 0x68c1c2c4264b6a2ef593cf42ef945a3d34923960da7627fb0e3f1798b59ee97f, 0x65bd746e8a1f95395d945e80d58515fc9f7992e8bf93b018fe3a7e61d3ee5326, 0x310c5e31102a2cd3bbdbccdb8db326d0885793c92a60bedf6a976aa84f6630a, 0x1f578ffdbc0bc2689df8340907fa3b94a712e0c109bd1ed884ed0e394e8dcc78, 0x349b684ddca756878561a11486b8b2ae4943b773105780e342cea70ec3ac06f1, 0x61130a7a816460b0c06111f06321465a7056d9af8df3a6e79d62f99b4e34c797, 0x2ef55e93bc7cb82a0cd951061a578ba5902da3ed53ac4552ecd107fc9b626e91, 0x41e11d1d94b4cf05dd166c76240fde94233768e6cbd05c1e7301792911c3895e, 0x4841b0766b65836739976a14b8b625a36a13b63638e92190cb3bead466169a28, 0x576ee7e022a1f1d4e67e41b785ac862573826e138d6ab8b622dd3d3996641ea8, 0x757e2047437d55d0753054f7bb3909af892efae9a8067e79a5a6494c19037d6, 0x2b13b7fbf00618e7ad5391696782499854686a1292844574a731f3fe9d856c47, 0x49aff5a845a4f2ffc2eb7197e24b4cbaacbc2ba1a3390a5a742060b79163cf0a, 0x2b008f3f47139ebc098b0d98f89eac7b7f13f8e48d0f73a2e40bca99c8a5dff8, 0x3e93e6343ff28e0ceeee0d38b956e8e59b292f1d2411e81c88693354b3127987, 0x68f98ad5133d95cfdb3718721ab24736b88fb76282bff20dd2c46b8525e21a7, 0x14f16f9cddd11a2445810d9f32fc35f2520334b3b71e9933414fcdf5e60d83f7, 0x3d1db3ddec0f434a3d1c53cc18712c8b06fcbf0cd63dbad695b4c125e6847449, 0x3b303d5a93b7507c7cdc3d0dfcbc95ee73379521994c812aee46182c59a2013f, 0x27f015855d6fba48c952287272396ee8c48f8834af4212ddf0b159293459d026, 0xaf611fd426d0cb1ea9eb7ae6a885b3a8e2b2e77b4d3ca77850c932ec1fa6620, 0x47bf32cb485c797ff4572e3aa2a7af545a96e728ddbe7e77bbfb244faf183df3, 0x4155c4ba8ca601ac7a2446217cf6b6c54293f5a3e4a18ff5bbec7322b0ca6bb1, 0xf97da4cd088894981573621e00081c637ae5fa430d0de757b7ccf8633d3f890, 0x62064e9ebd4b9695f1af3a5628ab7466c4067a03d58baf00cc106742c6bbf8c9, 0x4dac6bb75230b9972833c7517b8d55880d8bc676633d57a109650a9b755d1edf, 0x624f8e81b408e01283c49e891b4ef7116429748d3e16fcdcf451830845754db9, 0x1c8d107e7eb10228bf5f5997b68509a34dcf7e12e8601b0259a8a09820f2f80c, 0x4ac29c8bd79afaa0cc1f0ada8917540d81fdb67c10734f8549bcc491f23925b8, 0x416893c796098673381f829184907aa799f7634f48c2c526d57232df23b64203, 0x4c09fb2961bd0c264672034ae285d38dfdd9279ce13471b65efca2aae281ce6, 0x64c7f8c1a75b40b5d0ac565f9d5b2b3a26f7f825d878b60150427858704c973b, 0xf3a20d77229215de9fef6698a26137bd8813689a84998fd36df764054c36092, 0x34684e176d27e72457ee0df1eded2d0f4728bb69cedf8c38c0cc05a6f01d19a3, 0x15d7eaffd4e9521c036aff69b0dce4db58ce94230167df5272f5804d8d6532f5, 0x5e11ddacc16707108bbbeb6e427fce2d3c736c79f7bec00557cc4c5a6d00919e, 0x68625eead070300f5267c7dc9bf866ba4bcf6f3fbeea661bfd5cd2a91fc2d3ab, 0x6d5e794aca2cc24638047604482baf9db66304219df3505e6bfe68ace9513aed, 0x3244dda2504ecc9759e166bc137904d73336eca432a3575363670865ba953796, 0x5e74e945f08f48ae8becbc4a0bf794ea941345b86c1d2a1589067502d8a4f207, 0x420ffece2f062ca29df11e39c4b76821881e18a12cd085a83186241746edf983, 0x262958022221f96a24b0b1f2635f9492ec74118b998dced718271aae2caf1d3b, 0x63a2d4074469d78902b33f2f20f25ee9100491e08be5807612a1abdd1d0ddeab, 0xcf70544175639254e0cd9f3c5f551a261786b0c6b4c08af2978f2885cb562ab, 0x15c81945c6c037ef11af4e8e81628d7e3e2fa7a2e292c336f5d0851e6375127f, 0x2390561cf033f0fefd5f26d85ff065808051f936096777ac68f533ee916696ee, 0x39a81498d5d057e222fbf4ae42e3eb7af6b66ac5b0d2fe1b3808f6540d6b1217, 0x2ad522af8abf4ca0d196ef5cbed2882f8dd9059b76629aae242943cc01d47c66, 0x227d2f82d53c05de0442dc809cb314df8f09d2ee8ad7b754e3c108aef792622a, 0x2405f6344f6835a6a7e4fc47ccb0a8d04da9b77a246731a0b78a4464abb78e95, 0x665c5effddbee7ea77b4daa35d886dcc2372a953c7570be8c171a0ae4d303b1c, 0x14bffac855f140fa45ecb27a19d29d09533ff2fd72b234fe2d36f604f617c7a, 0x53312ae0c21b8e537d9281f5a4b72640c2d18a78849ad3846d9f2e397d6db347, 0x34153d4535a3927c49213aabfc940b1eb306330d350a2b1fa205b82ee26b315f, 0x3d7e6477dacab2dea30a3018a59ce414bdeb4ca005b8bbfa5a25961ab6fb2a00, 0x6fd4ef867eeb9c3d7e935bd75907f793aa552aa52482cefb9ae4806e6b309fb8, 0x1d874ea5d01d92f86fe3cd7058030ffc7a4d2b60b7d98f12f55d7cdc79806acc, 0x36cbe856ca96e9bac8faf3340bccf0a97b8cabdcf86b390a471adb0f097c81dc, 0x4e4e0124b270e0e4d856e05e160adef8db7ab81fdff210468948ea326b9d9fb7, 0x4c0c2f13a803890c55552a4fb69482ccacd845d1e66114abf8c016b59bfb9bed, 0x4c5f8ce191ee3b0b0c7993cca8341c172d3a9c83e7c4667b2ca11aec0089880f, 0x33376c5fa1da7375a5cca3138ff663004015932d2daa36ac0a1f5f37ae82729f, 0x42d6f847389785a9fedfa404be7b4ce49e0115047fff8516c97ea1e729e46d3c, 0x2788e672a660e5a0f3e6fece8e6face976d2d45c10b4016db9c2323544373e8, 0x4fb1881c22935ce4764c8b53e72f57d78651490a01369c85dd45df75e49c11ee, 0x68c5b585fc141dbba0fab642b26f7f628487e9e65279e3ec35ec5de5e859e36c, 0x1c3ac7153d3fb96137410927bfb29478e4065572e735be4c0c762685a155a143, 0x4411963837216d1050d4017ff78f97627114a41e611d8923b1b23062b8d450d6, 0x45862563df6103bca45d94100f6edfd30bce87106bb16a8ced48afcef9c194e7, 0x4400a867b27a914742f4fa9cdbf25750e4a5a246a4caedcde9c219e0f2716265, 0x2e4ccd95426a65517fde7b7fd8fe5381a71f671142cfe7fb538a7138dbc2218c, 0x4f4b0335ca8a89a37bc09792ffc7e8feca98cacb2f969fe05e970657dfba8fa0, 0x38d67709469b7480be1b406abe9383cf41b0e8704bd42de1c01cd8aafd719039, 0x68869a44fa0b49ce9e292397b092cd4c302edc9f05e97fbff359e149d897b07f, 0x3485c0564bb337ac49deb85f94299c71a5d60316a647f66e41dddbf39164683b, 0x515be47dffb346429954e2bd415bc7c7dd96ca0c90d6a3e4d5f06b9bc890f9e9, 0x1800ba6dfe40a88f9cc6b295dba99ab25a14f1c99c4ada96e7143f464c1ae148, 0x6941c85140bab75bce28db243db53f72bae7d735a8e5cdaf3c411527d020cdeb, 0x3b4c8fd16980623c7788a3ff78b3c35aeeef08d74041e4befed77ba636283043, 0x678be6e4163e2c84fb457e026bf9ce413b3e729179ab1a5b0946c1cff2b8bf08, 0x63e2cec8df7333b92d1341ac27a53bc9252227c7cc7454798bf7533e2abfcc10, 0x6262c44965950d4d97b20d5e123b1472e579c0e58567bb2e530cc8ab448cc82e, 0x15db6e56bbb34bc09824a7b3748bc9011e6a73d584864d09fcedda7b69a6caec, 0x69bb50ddc6856cfab6495ae11c32924bab92389a3696b591fde130389de427c9, 0x66f356ab6d3b81294aac8df19f6eb2c25a118abc22db85b2fc67f494e23daa77, 0x13a473a80df9e83a5b458b19166c39e7f2be1cd286a38a2b97cc7683f3bc2e0, 0x576fe22e90fb28096d6a0ec2e1c2bd12bab64a529c7e594401f429b1a9e46643, 0x628d561970ed2d9b5cfd7aa0f28b490718c8e6e1eaaea4568f9c9de07f532920, 0xe41898c63c8bf77929f461cc0e87988a0c761dcff61de56d093087d17b69df1, 0x542be24dda622ba2c4bdcb82a697860e1a75aeb09456c7b6d8a77ab5ccc801f4, 0x28fa3026c8b04c0eac05b9951d23d12296de01a96189d9264bae4db3efbaf13f, 0x2227d79527eff941c95fe43b6c761535fbbf60fe5ebd7c26115dc448ceb4d164, 0x32345758c8a8fcfc0237cfab0f70f029bc95a38c31aba783dfbdd885b7664906, 0x2bf4a255302669adaeb197e4e877a54cc38341cfc5e9f31d9f29fb442ad1f666, 0x4c1c7f92744cf4babadd0fa118cbbcf41c8b1527457398b5e35f07fc25680e9d, 0x5bede16a62285dd83441cafc9947dd9ec6784c488c3a92d80dd32a3e80b77997, 0x42e1b5ec44fbfeb22db05fc803a1b621ab70a2386cc0582b5c35e04f87d369d8, 0x61ce0e3819e706b93bdaad7b8c0fcb6b1f0cddd051c5fafda3f5d780f6ca5093, 0x5a294afe359c9f44054cbfdf59da627e4558fba01d3fe1a4c8435f68266bab35, 0x22cfef59697ed02841df99e22c7ae2525bbaab85afe8029a58f0bb26deb65683, 0x4e9a5825859371078bbc2d77dcde87eb431c2a071852c0521120e052483afab8, 0x697c1dad4f927b7d3c31606cc011a6d33fe66005784c351cb93a6a47921c4e0b, 0x1a6cae6a3c48ead9856ead7cf272a461cc108812b586183eb52e1402623b284d, 0x708e2af024de50767ffe7595771bec35248bf7f8864a34a6fce4b84786757851, 0x6854215618a8f7287d3c8bad448aff43754bd812028868076de4571513074264, 0xbf5bbf0056dbdffc3ded266708304f39df6f6cd20437ce8a5d8503690cb6214, 0x8142cf2e45bc608dbc7405aa66c002d40b2fa5b1fa089527bfea0b0a49f2683, 0xf408b385ed9f587f2664720a752479c09fcedd3156828c8921557102371c7f8, 0x4eb8eddf46819e27beaf92e208d6d0e6ed2b10f951d8bb5efbd35ac155c56869, 0xeb9bdac638074acafef88c2fb4c8beaacb9f315db58e57bdf52895ecfc709fe, 0x4adb4a5e331664fb74136db41569940455b0c2bd7fb20a846ccf8f4345b3772a, 0x605179f56367d4846bd5e88bef80a69fdabb2ebcd41cd06233288c3b7db538c1, 0x61fe4ba483e0fdbeb6ee81ab1f51330821962245611cfb6367ebf0b7fa8003bf, 0x71151c4e2fb8cc8444badaba1da46e1df27c745d4e2f160877bc253a7bea06da, 0x7f8aec553f57e3b2745f661df9c9abd2b6973e7c71523b4380d260e90b38600, 0x62cf45c70dee545c4e76de0680ea2beb25e697be449eb7ba2d83e071cb193b98, 0xb369f29ab0e186187d24ae220533cd7f3b1266f39c5178f9803b087f34096ad, 0x50a2aa85901c22428b18077babcdcedfccacae2a27ca7b5693a2cbcc228ffbb4, 0x4e8faea71bd177d0b6637468d0f33d15a63e62c815e9ecc3d36958ec3bcb1cb4, 0x6b81865d760c7124a1b7d6713424e10b2dee7f0640a3dd0d765039b817932329, 0x2e1c997e684094f915b7325db1297630a2669539d09dafa95654e627d061a771, 0x31f976c273562b97b8da9a884f6258c5ee362f61627b580a0df2174b4cb61a0, 0x137c88424075c5bb0fe11f35c47cb8b2ce3aa965061305e6e013a31d44ff02d1, 0x9f4a84c2059dff531526cf8aae1dcee6a6bdac4f0260df8035f01633e4e9d, 0x212bfef272e751f8a167bf40b617c2c88ccd2cdbff32027c42eed1db294b16f5, 0x9fb7533b95aa7036f4dfc8f3db6005dd3be8c6d00aa1502911edc3b76bdc470, 0x6192277412a9f72334b8cd43c5dd41a911ec4ec4bf652ba0945ddcdf8232e9c, 0x18ac0be879795a4fce00b0d7e2d3b9b38e421956ec04954a65e81aa7fc452355, 0x3970db2b4dc9dfd81d6775a77770a64dd26ef2527edd789592dac1c567f532a3, 0x4975f9551156e516d8c659888afa0bc97de2943a5be94651dd3ccdd2c03f26a6, 0x343a73a894e75191714a6696eb638ac95db3b697cf02bbabbc6f677387bb0285, 0x32f79bb54cbd2a49ec70e8f9575cc754bcf4657ed5fb6ac8669db3f00d4bdd3a, 0x3365dca344335091d0e09cb04bd5ee57bf7d5f96cd4d859e9a3db78e488f331b, 0x51e9d2c393624d900a66fcdb944b353c901b732927309647857d68ec014909f0, 0x43e01917ba18096c331afd2f0959086a9150be9242ed1e9c98c493cb1d7dde9d, 0x845677acfe99c4ce0d8460002ff028682398d10182201bdfa516237112ca1d1, 0x6a88fd57117eac823d2fd26129f109b8354821ef4152d84a8d6793fcf8e05eaa, 0x582b6cc0b9e3e627063b99591e34c8647862e20da90cb7fb428926e2f3503d8e, 0x3dd449e231328c95e47105e634ae5e7d89cff87087b00094d9330331807d7e0a, 0x31bbf41d6a15e5dc5eb0b26ee3217d9743f8af0d1081f56254218c3debac13b6, 0x54efda81442fcaf86f6d8ecfc74abe5e05eb685074d0576d25cad0782161e91a, 0x17053f9c146e8ff2a1575c093cdd89a68149dde78d0f8631a21b5e2c3dfec7a8, 0x5995411aa51105dc2cf77de09605720b3ed9ad8bc86fa77b2b7e9d09ff837e48, 0x62c3d858a02384f87cab4261ab5925006638a1dbaf1610fd0e0e0193f6aa901a, 0x1d3949bf875c343932b244df9c30640b5acac53733fb6a322ef632057a2024b, 0x30683156d9651100d4e7db5ec4a748895b42c9fa92c182e148711c31707c6852, 0x2756310947569be416708685576d2059a40adb59bdb7b25fc0850618904a85b3, 0x4744b769d69456ab7eff2ea35faeacac6fedce44c4a5585fff735646c17e59bc, 0x68f0ce6867f9e609a4495c44f14234f27a41e3b97111be887b47b7dd51ce3107, 0x5052d004990edde54aa13cf485d6abaae5dbf401131a9a3d78f07341bb7f0b47, 0x4d82bfc3a6bec57db17956b9d213d54ea40860c44a4b7e8e3f081e6af3d0f58b, 0x1da563fb306e2d9ea46a1d13031bc5b653a4376f9c158b0396d58d423b43efe1, 0x113eb9385d0abdf22dc2843a376a77fc99388258e44b159972d04dd40738fc62, 0x4bce14a12b8c96f36eecdc11f4657a65882444d9b22b050c94b7df8887811291, 0x198c189ffbb92a3786462b257daa483d61bca48d85a882527fbfb50d0127c1f5, 0x74a228391213522d7d8a3eb0f8dffb37e1ee4a41958f014780a9b50d99de60b, 0x3ca2cebcd1973cb398b4efe8117efdb864571784eddb53842a7b4a27b31f36b9, 0x434ca7a239b54746217c48119e1732413530d0fe91f22917a7b630fd02303686, 0x1420bf55942f0c9d2fb37024ab26af3603607d0abb16f427918330753d7da0b7, 0x5780e197d8742ba16c37ed50c867bf30e80826afce5083dcb7da018cc09cbf48, 0x5135a8f08d0b10f961bd56737fabd104a92c472feed4b9e4eeb5e6b5609a0f1f, 0x42f8ab9cf5964e914af62152842ad13cbaa2766dd664b60dfdce84b5c42c91ad, 0x3e76e3dc671f48e21b944b899837ca66648c4fe6b24683ddc54145288be95027, 0x69411939d6fda59009da67be6e8a789e4a919c09860ce31c5788014459e2cd41, 0x25964b85ef24bc4cf2fc99408ef2f134301ac8551294a3257bc30c56a748b372, 0x71757695c29ccc3412a81f278ab64a7bb856fadad67933bc70fe0786f7b38616, 0x13c59a1c7d50efad89c6ceebdc1a8153bd33d6b526bd79049ce3b7d16b22d083, 0x4ac6aa3c2df6ac3a69e8a4ce18d0440fb702c452be70c576f6e3ff837f96fbd0, 0x35d5bea0f0df7231162e41012e66d24261d4d3a4f626641a9f5190351db54c3f, 0x64024d147481e818c23a935c4bfd7cb576dca69bdbd8d3bf8a44997e67b0bf69, 0x5c30f6c18954b023ecb77fd829f3f254339adf039d1892da07a933ac5789d879, 0x1f2049c072046fecd704649105802fb0390906389833d50c1a66103e80099f09, 0x1e0af459c596d05d4670b0fa74f23dfa964c279bb289ee1fdbeab67fcccfe401, 0x5d0216eabbf27b3c6249694a188efaa2dc95d363c88b5a153ba37cf4face04b6, 0x5c7d992cb239e4b5ed115734036e0d99093072fc94abfade90511521033f24a8, 0x64e1e956dac6731f3b19b69a8f7ee09cdadfbd576939a4a14158aaf2d0d6daa6, 0x1abad2141b51fe728817a903b347bc63edd5169b667bccf0f77dc8cf977d6d3, 0x559cf60c40b2b4b03936398b45277c65af69417e4c3d52f723c4715f4e19c681, 0x1d875c1c1b2625f0e4ec914752ffabb6e7527af0780bb00d20733efe0e29ea42, 0x565086749167cdd8940a1fcca0e13e65a561714f6847b43a4d19b78261665d2a, 0x140102e766e54dda572ce310b8691464293605de87a731a658babaeeb52c2882, 0x367ac0b59aa391a3feaf02dc56c57d89678733e9833172fc960ac69731a3f2fa, 0x3769d6e7fef5cdb1604ba7f3783c347ec0d69e6cf8f58fa06e58de1632a8dbbb, 0x3b60226166c7686b7b5921b6539148612555c0ed7fc27cf3bbd17ea18b0d8090, 0x44668cde42fded6edca6154c9600afad165309349bb9467771c58e0f1ae0e88d, 0x4057a8dec909f4619f3145bacb391ca1e12b6b6efeb58f2153b8051079f621e0],
    M = [0x491fa6361e2b358fd5e1dadc14844120cdc679cefcea38b131247a14f4e32afa, 0xda5c623e54e05c160386f86333fbf05d97791fd8eb4b6d7d2db6c517b04fb72, 0x5707d5dca825504e99e85243b1f5b43371769574ef0c1379f9d192eac992b80c, 0x6d1976d4910f777ef66233dd34fdf283d6634552aab7bb4ac2167066218cbfcf, 0x6be7d3f752f0344a8726da43c0268751b4c5eabd4d0a1544460896843cb6870f, 0x731edf07a2666e87b8b0b4aef42c00c76f432c4f2464c0fe4cfdc53635ba82d2, 0x35e733c5ea0afe9e9ffb83ec9abd346d55d553fe7160c9453e96766c78b52719, 0x3e207cc59d59e82fdd6115a935cabf64e7461f70a63249a0ae88dca2dd920f65, 0x2182431204892c9828a6b208753a5844316892d0d39ee47e4b4f608fa7225ed6, 0x16bb6112bbdb78f3365a341b47ac1d4a650ed12fa252accdc4b1da8e77c63bec, 0x50c38443dde39562c35665893048a283c645c229ef20aa6051edaaec5ea9bd02, 0x422ac28544318ce0a995b0489fba91edf7db61fe2a1c55f4863aac897fe88c4e, 0x34387dd299cccfcb68d8e70bce3c15e50a95e70e9c9c9b15648c1cfd462773ff, 0x3a0e562c6c3d69e584d151c81384533b0bac0d711edcfaa72412fc2e6e614ca5, 0x208dbc6efe8a5db1d945d617ff3c804d297b55007bd503d93337da7aa067b37, 0x3b6fb12bb6240e80affdb7dc19e7c88ca374665dae5a78e7a57bc75c78d7a782, 0x379a10a1c4f848cb48e6631956632ed9b73954bbacc437093976ac86cb96b309, 0x79bf05b72a77bdc75ba768c4811d57205c73764d74217a57700517338e01c45, 0x7363b6eba66f249d1a1e135e84abcd0a99042e16e20176cd8d2e4f6adc4a1cca, 0x682100ef30bd1c4b1624042e80a418f7a5012056ffa46ad7c7d9331eae429d4d, 0x621935932b6913f3b8e29cda483d704bf217fb46fabf3a1a3d53cd6e85179dd6, 0x69126f3e8da81a243553148b5348dfc03326fc4878d9355822e88dc2d4ad06db, 0x5034980d19e8c13333a8ff46ade1645b3b12942490554298e53ec1c7e1c027db, 0x20d19676840781e46507e363cc13098afb5633fae1e4767fde7f490b85b24ec3, 0x161c7703c0793b578db0a22d569844d207d7645e9091ff66e3ebba31f0a1c0d1, 0x6387838ab3730f991b298759dc1b09882996c1570e997c82f4f2f90f85b81c5d, 0x6a6f4a37a9707e52453983c86e4d84e24f88df50b2054fd11ae31e50cc7081d0, 0x1b4dd4697b8f4f55a73849bf49ef939007f9fdf2acb6c22b936a87c110df79b5, 0x29e030bdcbfadd02383e35a6fac3f1cc85046697e13871f12f7afc5ec3eb4821, 0x127aee60e50d715407a0cc72b89e48d468bd146243d6c9ba2a380ec5d4e16dfb, 0x32ab6797da3309ae650e2c48e5221f3e225b2ef0a4a1ec3c7d444c6d5b2f1da4, 0x5dad547602b70104219e6933ffd1fc2102a2edf7996e69a3d23ce271e2339a92, 0x3884e8f091551f1d71b85b1f55362958c2472ca4d87953cd4cab7572bd325e13, 0x3c8ebd5baa3b89742d62e57e530d2ac01d6ad555f92c10a09880bd64624e2998, 0x32f6764b368673b98193db5ee3a1507a577d35b5eba2f5d8c5d1d5d10819e92f, 0x442b27f06284ca9ea8332232363045e243b9acb5d6c1f8c21127c24eb3d9b378, 0x301013f1343c83133f361f949d6242742c3fd0bc07fdff841f777debc63458b0, 0x385187e418067f2777d6aa99144fc695583d823106142e8bb76876a1c0601109, 0x384202507a27840ad91e615144c8c1ac1c76f9dc2d4867610e9b2e6724e76c0, 0x23379d19cdc4b0d9a10f010109bda1ded5d127d377b6e44ad53d877ca7d46240, 0x52a6385a0d4e337d5a8fb40b1cebb9abd1337fb4a547c921229d405aebb70e78, 0x4ac42c394802b3d6d026ef244f8e05c33d08b75f39825d82e3591947655df60b, 0x11eb54334b43aee7d2682ddc79476d828369032c3081c6a9000972fff286c62f, 0x5f08cb27ea91e82727bbe4b046fac2ba1af3c3cfd4aac097ccc484e7fefd783a, 0xa72e40705620e17af4a4bdaad422797092eda2010d8c9c31ea9a108b345697f, 0x4f544baac232d3c87d2fff4c1ec5f15b38ce75d442a97c4cb521b4fe9ab73e3a, 0x3ba99b92bbab5a222cbcad026ac23339275c14c83bf6fc40742a6a387c477596, 0x3929ff5daa6412f892460a190c62e563b51c1ff3831d51753d992ad0bfc9bb57, 0x4313760eba0782359bca918569f5bcdf1de2fbdde9b32f4a071cfb90d9d43d64, 0x51d0b48dd616bf4898fe599e387594335c24681e5db3a0ee8116585ac1033f8, 0x2787736a78cd8b7e8405309261e290b2d499bc8962dc0398546e73fd91b3e58c, 0x2722597a45c61c0942e8a6a94aacfafb0fb916f0ea129ad8383bf1956c0e1ee3, 0x26fd6829e2c0182da058b731ab166a0d11c8bf1763de927054de43bcd0771dc3, 0x366c16612f6d7b752c6a2283b83e637b473e8a46876e62812aad09a33fb6d9da, 0x11e5dd330aa970108e5013cbb90fa2f91e1292871887d1fdb40f1be167a0424f, 0x253006fdf5f73757dca365ac0e1525629d06f3a72da0e5af470115b3eedea03, 0x5af7a98f0dc241e6163143c9fdb80818f4137f8d9549271660524ea696234b6a, 0x7221c3ef3253c045c3ab3e6df6855fa74c41fd21f7ef05042420464e0ae2c5f8, 0x28f0a96291ab5e098b091b6b23790ff26eb88ee19303df58e546cca40f1eb5ec, 0x22787e7244b2248b329b2d75596db69e31e03eff2c04288f52043916308cc525, 0x6ece0edee898c9a95f841fd6d864e5cd7962c8dc34e77840b15688678bc271d7, 0x23358cfb89e3ae0393506f26e06f72158720712cebd8a0c789adecc35608cd1d, 0x4d6469d06679ff4a3b3b8ab9a2f22895e49919ac26e22e858612a52d1ff94b68, 0x44de9115317b7bef50dc37cc330ee8e766ca8c792dbb4d7847ecebf5edd79ce4, 0x3c55b92636ec6389c3d3dadd6eacaef48099ce46454f3ff2bf697a7f3554f17b, 0x3e616156f082f8073446f6dcc97fceebcd7b8daa73eb3d5e9ef636f0f8e26cb2, 0x4e73ea732fe6abcfaed5539afae95e7b32775d788384433424214016cc0c26af, 0x1733f1caa52f279078e51c977da71d47f272bda38dab2b2e04f2f2acdcf51b4f, 0x5ce1c8f320922646bdd11df57c451a6d2d14ea52183ddc5f37800e402b0b8abd, 0x3b2054a7885808bee2a1b44636886b281aaf3190be95fd1ed6465f8cd97fec8b, 0x73a9c9ebd0ecc72d0ee7db08f4ae13a17bbc895ab90bc321c91786b14d3f8064, 0x4159ba2aab4eec3a50f656410e5b2f0877ac8bf7b3ad0bfe58bcf3423b14cba7, 0x2ea530ad00370c62a419877dedf21a9a211375f43d7d60fe7051f470381e9430, 0x6a4bff86a54aa2b928ffa9b15b5d6eadbd301626b9f3677c73b5d84b0f47c85f, 0x3bc0155b9c32e119e7a37aa631af96cb7e6945b7fa9e317c398cc4d71c1603b9, 0x4d8c554744c507a9deb2e5fd285f8097198badb3a356a7432db474c89fb62334, 0x431cdea01128d0360941b1250de2133f60dea74da618ee91aadb55bead10c1f0, 0x273c1db30a579b9ce7b68a54ef9280cb0754374d8bb0b628990e6d5dec96263b, 0x34f46c4d109743c5264d555571e903539575255c0ced705fb1b5767fb5090584, 0xaba572122eec9d2962362405751f02c5477fbec4666dccc111050b0342e1e9a, 0x5d35282c0e3b39d6a2c49f54f4cbc71567015aaae1c5915820e8b37e4535ab75]).* from "../poseidon"
}
