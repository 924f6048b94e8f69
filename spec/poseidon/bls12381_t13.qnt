// generated by tools/gen_poseidon.py
module bls12381_t13 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 13, RP = 65, IDX = 0,
    C = [0x2df89a3315b3b42fc9efc399ae73be265d3272e6e33ebb4feec7364ae278ff08, 0x4d7ff2c36f90f372075d7afea17dc07643a045598b648848bcd8001c3dc3cb2a, 0x567a8c36a191a173ffad761e3f50622cca24c19432fefb85960e911f5b1f2c44, 0x5539519527bf5d1febd6d9281336a437abc4d6072e2cc4d50bfb49bec799ad43, 0x6d230ec0c3495f0ae88897b43afa645bc03d7bcc5f5127fd498d3a53b1adcb12, 0x20e79f8e933d3b20497f9813284de60dc3b5887c8d24f5f33cf9b625779aeaa9, 0x73e5ab0b2b06b9c92f7485a3a934741ed99604341cb69107207744d7c2be3214, 0x5de5c4b6f1a0f7d71a9dd43f2a31aeece04e8b5fb7688bc0d7c663c38fcf8651, 0x25f47dd410f5dafd08b065cb8ef52969a357585a70800f02966dbd9eb95b0c53, 0x1dc7cb4e615a709754f10eafe7a93dd8763d42ecbe228aa0cf759dc071ba3b8f, 0x3bf7437a2f813b2510cdae9c1e33df81616f3c889cbf649d174f2bfa8df88f84, 0xa05fe2a41a2a2268c9280e5e290ef765f7ffd7aaf14fae5e41a480fb76adad, 0x35a94bfe89cfb05f604b6f6a9ad481f39b4162fa635e3c068d41c214a538d251, 0x5a99a1ee753bb30fd3c5979d6a4b8a6c143ce9791e5a2fd6e9c8bd55b2bfcf11, 0x136f7dce3285920363ed371be03e3bc1806cce526d2fb15e272468077432bd5a, 0x2d8b2af6c35a3e11caca4bc9a4a8d3ff337b279e918074c0c1f12be9b3ba0221, 0x56398c317ec0e90f9a1dfaf7c91b74755f08289afe198853fee6c2fca56c3af2, 0x2b3cd199a8e5cf0478200e1d88b8e4a2a6b76189d887d702f6bcd0bc17d9989c, 0x5e2c251a795aa5d3e2c72ad3ba3772c79069ce3856dd6a095d043a2c7abcef37, 0x26761cdeab0e30fca048f377c08fea72943a54409ab450b101d060a30cb60cb1, 0x4486ce415afbb974c9efb6f675557c0e7a4dc995a108f33efeeeaf78ac8b481f, 0xb2dbdc2ec2f82cd78bfc66f71f86310cbcdf1010f84ee128e74f464da550494, 0xaafe99b84edc243b41d58aea99240f138e647c5c3f7df6dde072ad38471879b, 0x10feddfeb393d2bc2dcf90f02bc4a8ad669f837e6fe9a0b7c6b50dcf37cb0f41, 0x25dd462bf4664d41d1dfd63aa69a0a0c2096bdb14e77de38cd9cfbc2db0928d3, 0x629f9fd2a1edf0ca77ef1f383abc33cc3c27c18f2ce6a9760b5e871a55d26edd, 0xefab242aa7a68bfcbff1f0afcd3054e8a43bc93648f4e224ec8dac81bc497d9, 0x65261a095255837e9874d79d2f0de865279efc5d03a468defb1795ce07d8a425, 0x3d5fd12c0aa167ba6339587a17fc82a10da8f9f8d565110b95b2868c2bce02d, 0x331acf7a072251ff69ec12d367af312237daea74b3b260dd88ae36f8f835b638, 0xe63a1d62d8cf325a0244c502590bd281053105f4f85d5299ce4319adee8b907, 0x434f34f19a36c904e6966be9fe7ab0296b3a3f247b5a4e94e55efecbb30a5f52, 0x3d7311bda58d1435f4841754687ba585c2c5e1a7aa111213c75335f74bc9b431, 0x3b0586be102230b975449a29d185d70ef6720c0aebae2bde207199394e84a08a, 0x699f724f5b555bf82d6329b3fca0d22348674ffc3b4a35573d12875967ec99c4, 0x1ae8e22b53a757ed51767c7c890bd0d645484ccb39eb2ad14d5314d03863daa, 0x504ca3715a84ba44efb3f6a4e211c9b7e7f7cd8b3fd05412d65560d46345a392, 0x2df948a037c5cbe4262b1fa0fd6d9193d74c8cafefe2b5edee97e06eab8aacaf, 0x67cdac2d1edbd2347135732fd5962ca38e85ea2232a460dd14af57ec78dab90d, 0x2a1c324e8af4f72ded6a5684274573f1cec1eef20c09136ac034f861b1fb602b, 0x500e5bee598373019fcf8aead01a187877236b852eb2fa12ddc62b5f7762eb73, 0x2f19ea7ddb5982838f613933db2d44d55ff753552453af0beaa8f836983ba093, 0x6014a28dab77a08869bcd7fdb20578722be7a104d947bc208a9a4a7eabe93a9, 0x636f4ad49c01ecc2ee719b20a202cb32ef26f5179012d5eb2dcc7a116f523db3, 0xf53e563043af22ab641639877915d2ab64879616bd8c264b504658d608790b9, 0x68b221390aecaedb62db2ea5bde6992f1de6f8c62f5e72ddcc7ab2c618c18796, 0xd56f92a48e1975715b5ac6281a05dadb5378e7d55983f2e9a4ad9b347429335, 0x1b842b56edc81f714ffff081d8e69c738f66d455f9de3013c8d619f455f9fb79, 0x1307b3b42d1f7f78ee2c22ba703b03f48ea769d2d52925bfa6eaffeb2bbbc775, 0x2a21a2c22d42f3f0bcf70c143e5373c939f5767ce1babc25e782b891e82a9135, 0x38355e599abd3998fbe0b485a89573af640051ec1b0bb94b3169962174c4ea9b, 0x61a806bde2d74544cc4e9fe3c436d4f70aa4617d2c2f657b5fbee5350fe6408a, 0x37f589dad46d0d04a04e24fc6e6efa49e2a2666b67b2baaf2ac8d6baf31cafca, 0x2fd110d0180bc76e95bd79467981af81cd777f529b020eb2787a047475939d06, 0x3800440703c677bef7d0e2ae04d4a53ef2bb932645175185d98136e8f60dcf8b, 0x232701348388dde43bc5aa04ab04a44e0bec57d4587911690bad5ecfd02570c6, 0x5eb49b88a4fcdc0c7ddb8da16f66a71f5acd51cbb5c5c266dd8461129585aa35, 0x2c5e98bc977fbd5bd9f584ff178388dd34f6a18d96c675c8081c3ded85889583, 0x25f83f4dcc6cba3dc1d7c1142c534aee3e30b3b24ac71c5da49c7be07ec5cc53, 0x1b599093a1f98b650556038df1131973a436c5ebc3ac7557170b1d1e6a2b0057, 0x48db10de59db256a7fec456d9e98993f746a098a623f7da7e1cfe18fc0788c3, 0x18028e263d53bb41c994be2be7de934660c2ebb72f520ecdc88fb0256081c0ac, 0x312ef852e8bcf99278be6f862a5156bbe28c0368eb42970e8a782086d938009f, 0x35c3d6b6ad26c3730faaae11bd46ca4c3db7dc9daedb96f346179d83b0275cc5, 0x38851501443cba255e9cd5a7a865cd088fb1de7857fa5e8a6b896061be493a2, 0x141d80b5a25eef9a28ceec62b7036081fd3aa0ad198d4f152b46773a6684ff70, 0x3e46d668a7610eaca2a399214911829195f2c7d69d56520a8ef578e18c6fc51d, 0x412f93c8bef822c78e048747dc491aaf1a1261fa9b28f34e109df8d916aacdd8, 0x19330713b927d2960cff0e2f0f20331112771eb13485f6ffa5729a747a0d3b4c, 0x5588d5dbe56079e68fe9ec1ed59eb02ec58558382ea062f44aee5e20b3455287, 0x1e8c12f4ffc865fc315f49261c053650b6fdc793eff08ad498c404cdfaaf0704, 0x385c4ed096cbdb630cb545f712578ae663d56b9bd73a9bede95fd0840c3f7277, 0x4f15d9e5e5b9e878bc8de2d52e05c6f825b5865091f90998bb4251f079fce05b, 0xfe29954960ffefa0b5f87238f4c17235729a4984b4fcc9f4bdf29c1ac431a86, 0x7b19094464afe78023d7e6ed75066bc7a1715bfc8806a9b640ee099db42dc99, 0x52f4aa6cd66627557a937285f95bbf2dd96298fc088bfb03e25a6faf9edef32e, 0x73e3fca22c231eea3567a23e93b14df4bb51581e6f3f849fa78a7afbf9eb5a97, 0x5bc4b09e236596dccd8c39e7d68788bdca18e22e00429b8061e383962ce85f1f, 0x1815595f741ed229707162bd1c74f6fa9bd41189bf6af61ff3ef61eb972750cf, 0x56c71cd1cb71e4a7a921c829447f70784ed1dfe8e1a806b69cdc21f8e9f1fdab, 0x6c4043ca1fa271de2d6cd466e0388d67a459c82da599ce517ae911e9a1134ec0, 0x2a1b1b566986c56f3ad5c055f06533012d6cfa4751d49da9a26ccb6965a41a1e, 0x4db3978c8f8bd0a91439e7047e5c9c32761f27493cfcfc0c17c3066c4fd5262f, 0x2d0e16828812f1c0bb9987e8bc44f16c107ab030170c7fbb2a1020245aade1d2, 0x2792259a77e7d822334d2ad651617ec957f0ba982c6113790e1d737f50c47365, 0x38317d85f5cc0697b202f5c60228284d7d262f00629e37fd2d7144043b635837, 0x578e143bdf2a080e5f48267f255bd68d3708ab2e06cce3db770c5418d0de8bed, 0x24100cf1b8d5e994509616e26f7ae178473a52ca44c9fc2aefe7da13c50e032b, 0x2047803e7b3fe1a16ab4c024abfc23a4edfd6283423ee393ecabd0729a65360, 0x1450e6fab75f1483fd8d3678e80af59bc0cf41e715276b2e17ffbc2d53970d6, 0x34a6f846b167cc414868415b519923f7f9096a82b616fe16422247d20a9d4999, 0x636b8033f245fb266d52df0b333046b51ec2fe3c33a50f1423e81a69d0e381be, 0x64e5d62dcfd7563aa538efe10eb5a3fe3091b4bee4c62a938e9210911d1e1d0b, 0x3e764a4cb5555f87c5140fa4ad87ac27bf7b326838da55119c1dada5df67d82c, 0x16ce7f29c41ba3803317cb371ebfe34d7c3c360ded99ed008f3ec9098b64174e, 0x97141188a95cc4c79ad5fae44efeb480d7a02d7e84e0d5ed80e33c2963e5423, 0x60ffa37d2509438b742668c94316e3b10985160d8f1a8b28364d09b4673c2e89, 0x6cc9cbc5f23be8ada12b27317f3280bf6168c94c1f45efcd8f6f1f841430e6e, 0x45133cd837c84c8994247c0522f2086487f062aa93460f9247973effe21b1f05, 0x63e47a28fdaa681a3d983ce39a97c954051a8f7529cbcccd689e6f1e567c8cf6, 0x54853b379cb3e986a048d83376e0a1757baeb71c8c811eb04af4b03c88ba32be, 0x51c7e0db80f6bb07eb1ad250e40ff1ec51d95022a9772c26b56d3e2b216382b9, 0x6df0cbc74bb24cf187f144973cc8f8fd1a6030547bdbcac4535fdb0af82132ac, 0x61b1ec37cb3c4694029a80b21025a859fab94244e6caef63906ad0d2f59547f, 0x3d34968408f80971c6c44c365f402fb8dc20b0ccb63961520fec49241c19e339, 0x6423e53ad832e163dca9eb3ea4af586baf24827f23dcd9b9f35923087010509d, 0x371596b41b1ece5aa24787eada74a01ef90e59730fb9e3cb397fef0c1419231d, 0x649e64e3ff609b3916e682d980ee531a65493fa1ab062b362391ebbfad73ab66, 0x15e14c77391acb96aeb3769a24ed16cbb37dac3d864804eeb7c73b5a86238927, 0x3dca126daed4b0e1880f47660b7eb71a9d3212cc514cc86092ca02a6c887131d, 0x2a5e50c1b2a9dd6b61bffeecab9ab72fa131d9d9c40df545dbf40302a90e8f39, 0x236da06155e9f6e0b4adddea61d9179cb25ce83081493b769a9f4d2e5186d5b7, 0x4ca6ffcc051588eb32a00ee6870faab711c5864a0cbb7c99d44d3f2d289ea8d4, 0x6f8457d4436193e4ac4d69e606478eac0a39222d427c043709f946d91619db66, 0x6b1bb14fbffe42d6384baf5a2b20cfc9e2718513489f3d599ec1d5ffdf5f87c8, 0x58a70024dc7067706c3d70179346c941b161c3eeb6b6e70c55f57bb8a46644ae, 0x3d1221b9faad3010bf74032ce0547a8e29d760cb4474246e1774410183b4394, 0x3a6a702bbe6c823c880c3039f6a2fc46f6733ef92294bbb9ac8250bb865f61b6, 0x11e27f2b2758faeaa520a624a82026ff1308a70c1ef1294af7ba3df0561e53c5, 0x2d61127077e9b837949c1a66e171d7a7c30cd40866cf4f293f3d68263445c2b7, 0x427320323983b6217d375247dd4c54939e6cabed7a99b817d31917232424e91d, 0x4a0aee28db36430259f43f9b17278cb1c82d7b6050de46e6a14dce31fda49a03, 0x68a6b2a8cbeee5d2b6b1d1129a074e93d4463d8c44e9fbb40775e8d3b7c8ca08, 0x1e1b2c20a268377921a4678aac01bf58c4ec7b805588f59561c43eebca84c3fe, 0x189f70ae0bd921ad3bb92af635c7e4d2cfd3180b753dd8496623c073dbb14df6, 0x3749b1930286d883bfdf66dc14294f517e845e14e3a4b6815511d483c8a72232, 0x472ec413c4f68051bf7e5d4cd0f51a6064d14bee0c05636b8dc2518cfad72c11, 0x28d770d8157bd45a2063a031438568bf0e30ebc47cc5407939979ea4c23c4d23, 0x54afaacd8722fe1b9a582d09cace17fb7277dfb9d86a73ad9c21d35b7739efed, 0x6fab9cfa51083b674d8b1de0ace529a0c091e0652c8be7c505d1656c2ae1377e, 0x3c5221df7658128df9fdbdab3984c57d22a72ac1957f7a04078c9e9db6b80294, 0x2a1ce8c66893534b7a0495fce248cf40b094f53c62401cc8c7545f927209c6d7, 0x47e3e734f149347c236d673fc6e0c740215ebde7d777a523fb3dd15499695817, 0x2b91a9cebdf2e354620abb554e6d1c664334776456d9f5e0499f68a9d4eb6bce, 0x55da9727cf4144389621e1d1e04bdbc5a6547f2c33cea9599ade90dbfd8fe252, 0x72870b9ae85a9a9265c15989d5a026818bed229c38d14aa9d53a8a6ac42d3a88, 0x7117845f85c26abe33ed4aaeb9bd7e84928841d4cd8f84efa5d9872d580dd6b2, 0x6c2e52bc0a11d91f52e9472494a818a0ed827f3397792a5863fb57d632ad36e7, 0x71c4478f5f62d6a9a74941282e7f2fe015dfb8c0209346247605aa5cffe3a6bb, 0x5390d6aaa464f81c6d342845dd388c8e6448aa0c3d741b8b0ccf20265b1c950f, 0x59deb0512013c81055f37def65290abdeee79d2a8f0b28e68d6f5728275b50dd, 0xc6fea3075da1691aaa6fa7838dff53d646018532757686fe71c61c404c3b677, 0x163a1b4dea32d46a723f6937a58527570066bd231c86df7cd5bc9b9454ae845d, 0x537811d7a53eb93c816b3f3e6dce202ffe82584f4e103fed5f2557a1a8f2fc29, 0x4c06d19bc0cb41a0ad749d987214be58491f5dee72fecae1136ef184c4de973b, 0x6c82c2c4adb9355fc9aefcc668b4192b7944c9a5ae397d3859f63adba509a31f, 0x63cd0df57df4726c6ae0bae4538845f6c5984d1f368e98b14c42132e735d8f40, 0x877ca8eb75c6a2841a964dc02c1d3dab83b5fa2d34929cfc332c973f6a1df4a, 0x5e35354fc236c3ecfacc5fa6d26e29a4fa341846826a4e5be865532295ede1b5, 0x19a6dc01d87fad5d61419c578d258cd54feae5c252681905608f2d5904bde4ea, 0x27720c4eec78a4d084254165aa68eec319afcd11f814e4f5c56079a629538ae8, 0x3c4475e51c157d24eb500737d488f173080bbb5bbc233518352826d8fc421736, 0x496104ebe079ca06d52126e2d292e53107bcc5039edf6fcda5523ee2c14eaa8c, 0x1063ec5c2e35e804499176020e5bea93a59fae487e997165123d434b33c356d, 0x4c701bad2ae715dacab7e2b3988ac8035b32313759587b9fa5c514d6bd86822b, 0x35b28534d45098bfed6ce571cfbb313d9abed1d04c2a3f2359869902bb1d19f4, 0x54874ec3f024f6a2f354fb07d7fbe82e5206377b592c1c7df08e58f7b7e9fe84, 0x543458e6b14805595b3fe468624f71c9af1e9a4a5ad87edfe04291b85bd0d310, 0x4da58f026ae693b218d35276375d6b9da336c991a8b5ddf9161a061a33c2b8f1, 0x538f90e194b49f5f4af9520b89db7fc1bbc95704e5a8ea8cfee0b7058a1685d4, 0x2c49d89cff2355c72f69b25eaf5c8a9ba1ea5694a99551fc9941f165ec1e7620, 0x4cb2873a650380b72bb73aef8484de26a99f170ab715886c2570fa9508140b0d, 0x15ab0bd2c6a5118142ba78b2ffcc639575e76c2a59dd46d707ad1b6d6c4099f, 0xe37bfdaab820546fc6a1200b6cf3206e58b3b4d78a44130a650185dc4c03ef1, 0x4f4575c99378e0fc357c16f42a1185bab42c1215fee6ac352ccda0be0da4cf0c, 0x7245b99279fb3429edc00861bd55b735cb9c3a54a99b80abf4bc3b902576f27, 0x40f4b89ab3959e4113b46a274bd49da0ad4af44fa01648dcbb67e098fc251a64, 0x15c35dcd1e1775d439e433c994c4e379fdfe412dc8af7986c868bf1d44c01dd7, 0x69dc17b1974cad372a95221da00140c1c18c7aca4074f221ce6bbdf992da842e, 0x5363302f9192c8ee30b67940c7ce4cb2a22394883922dfed43b1e4aec0fd799c, 0x79b6f514596c4eede29a1879450ecd2f65a3f8b62096d99145391ab069aab3f, 0x6908796b141a26a0ada749edbdaae6799b60e930874c83b851d5ddf9a5901f95, 0x327827ab50eb5fd51eca2554cd74cef0be840774cbac49a96dae1ae58784f255, 0x179acfa0979a3c3424c55bd09086f763e488b2ca64317bda379817dd7539fcce, 0x2056080fe9081cf4fe534ffecb74721c4f7f972d6d63ca86b9b2c742174faa0, 0x4a2f54192cec9308a7285c039041fd83f28a309947ed28fa52fcfdae60260b0b, 0x69201fba04e1af3d70d5a3b6f0cf41cda4f91c0ae4bbb5bb90720ea8fbac920e, 0x36e422966e9e7cbe3cf070b9a22a09af52fdfb07ab8a7f3c8cef2d3f7f8c1abd, 0x4b39f6a0228a2d8c1b560f7203af4dc7e7d7d5c75533aef0a8654a99e908c292, 0x476e58a09248785659feeea6c6bf19600e888cbca13fd8248b8684bb56a83b1a, 0x6c5c32a77630340f090fef660be84c8734fcb210ad67830867d259ca539aac82, 0x6980d30499885c0b6cbd3e39350747cc009a0f18cd08732eac2100b146821029, 0x4856a1a1bfdcba76e367a3d92d1bdc903bb4eab35b59599fc0bdf26fb071037c, 0x37cf6645ca6d2260c229a0244a3287a63611f761f20e7cf91eac6d9df7530fe5, 0x1fa7f05de001e360eb2955c682bb172fe288868befc8185132c6c0428d0391ff, 0x6f47bff157a97c906264990cc25da1bc70ecc8ed37108bc7d132394941a84e0e, 0x129bd93df2d090fb5ebf585bfc8caf47ee478b91dc0abb3c87f8bc04a2aa860f, 0x57955d6f1dbe635338ce720ce64d81829382fc24182e89c97662541fed4b270f, 0x594b68ea43af7fca75da582d4b0d5726b3bfccd5bdef267bc5240b4137edf04, 0xad1d61730b5db41f8baa8043ea6f70971dde925f80cf6e024ed0a59ddada97c, 0x5e87a7ca91866efde321ebe5a07fe61900c53e8af382c06cd1c195b80b783f94, 0x51e82c5619832cac24a10f63f9d2598dde2db4aff7a63caf625ab5b154a5db05, 0x551067255ae8aa9608806cc6a83a7cf9053712f24d5a64ae36bde308a62b76bf, 0x166d2e02afe0fa7487a34e9ec525e01e524ee9e637a2283675ad63a5dba069e3, 0x10e458ffd3dcf24af299bdb601c02430ae5c013b57656fc95ae02c2a575d06db, 0x7166e6c86ec3b11294e4547b280e5e43764a78685f91082afb7e8e8c92419551, 0xfe3566f26774ee5377565c4be152ddb71909d0de1149b7bca85ffae5b1bc1e2, 0x149ef7e9aa8c35691eda2977f467fc0f170c23681c52c330d4e8cc1633a13b1, 0x4b1d02c0e450e0fb352584e85d0a4bae9efb44e7328e8903698470a0f83fcb13, 0x49fb9eefde3e28b3584ad25e00fee462fee4e37de5b8520ad542293e88e9e6df, 0x727177a919f19ddb34995ab3ba6d469aaa28873691c5572485b5658432bf1b6b, 0x1c11b7b2119c1dc89c71912ee667ebc2782e27f32469b96f88350c8bb4abad2b, 0x42f9f54352ceeff13488bc40070dacc88a5a64744ea1ebc312b610566167f9fd, 0xb785491ebf23a85794b6f650a15cb1e526d2e33945cb1f37958d9d1f0ae88f0, 0x43b848ffc9df0f7253a2b2efe11c9b03cfc1a54dcda6d185312d81aaf6e502c0, 0x7645fefffd8fe31bc2c36dab05abd8be37c445398c2ca3d517064d3c848ab60, 0x4f3be935cc64018c7de46c2033118f3e7e6633c0b5a4b7303c9d8bf3b92738f, 0x4e497966f372d468ab1fc1a836c33a4b0129ca00656d77d91d788964ac4394a1, 0x63eefd815cc3ce7935eaa06547548d97e12ab885ffa8b326e77149ff55a05721, 0x35ff5fe3cd4c8429380b4e4eed2021a80f94415026db78024677a06861af4236, 0x38bbcab8f713502feeeabfa3c860c2ccbba171ba07a9f719d1d9ae10c3615aed, 0x27e050ff501ca79cc75fe26dc279f96c642f465dd04f1a14cfd9b58352be4aa3, 0x269cc04c58d893c9fb10abc6351278f3f99744e33957a06a7259ad89b98c5a9, 0x610ae38f1f75641c59f75484f4e377119e61628c09d4ba2e6c6943ac984801d2, 0x1330eb2fcd8394ecb983c0dce4499abd70e63ae2c10c7a0d753a8a219cd839e1, 0x1827d29065407758331e35ec116b9df33c3858a7658d8390666d7e6ca0f58f1f, 0x1f53fafb6567f127ce16a489eb3b6e9fa1f9fe73765e1200d4e3b76210c13923, 0x62ba52fa232474bd2c9dd8574d3a694d8fd0ba72f35f4c384dc8fdb88bfbf17e, 0x3d55f60c2a05378ea3ca8d0444b78da71568b3bf4fdde5a5df770d0015b849de, 0x411a6001579d5d9d22c9fd1855e2c8583c912f55346a9aea079b8c22f548ba48, 0x55e4f0b758a65d8073bdba455a569c0ea54f20e7ac174891026fd49b4946dd9c, 0x69f0071a47d74a495d7b11d934ae37179776a220d1893456e6397af4d5233d30, 0x23c8b334b3c975cccab0634cf815df8cb7ead9fb5a6a420bbabb5266d2d19c34, 0x4d012222ac10ab36564cf3837b7ff3bc9b9a197f76338b4a4c8bea0c4daee49e, 0x695eccf33e6ebf14c8a7df930b66cf17d1873bca203d36cb4a1cef0ec853b6f3, 0x116c7b7dba6410f930d1e763e98e2a613f89aec79005fe96aabf990f7b8dedd9, 0x1686973898d2eee6f37a51fa9615bcf2a0fd5f9388163adc39e40fc820254b4, 0x2aca713043b827334780739efe150ca6549beba6ab2ba4b0910f974638424337, 0x4c3eff4ceea4f2963b78ae8dec686b483efc8fa41285497c86800dadc39d210, 0x43926a8ee90174e743baed55e28d255a712adf10e9a10368d7687a2d9b8d7bbd, 0x5a6558527a0ef258555ca9d093f31875fa8dbf1da1363daa2e4f12d692c8e120, 0x170712b77f26d2e61a32630778202238899f38f3806128d65a899958dcbc0231, 0x6aab716a7acf99cf7defc4c6c39fffd4c2fd919da1ce2eb200aae10faa5f392e, 0x5f1a7a0cdc48ad7add2e5c4f1c60c480d19682b5805f9775c290a1cacaafc53f, 0x1202282e213f96d30031374ddb35141895141a41378560dd5e5e1901d95ce368, 0x22ab5dd32decf676e6d2e33d7fb3a3a430d54b2853e5b65b97ae6fb70b514c4b, 0x42b298fad3452daa00d3fec1e42ca4665ca4f8f6012da7dfcdfe4548c83bc0c5, 0x385f1847f0118451e3ff0c7f23913becfaa10d714a55ee1035ce4410a00969d3, 0x416cdf5d4d4bfefc17acb65321e7fd4309f56cc647bf3cfb1c46a8f8302371b1, 0x6c603782e1f8c0d7cd13600e1543c6a1802993ea604dfd6285b4d615785728d1, 0x5dd22c72131370862166efd04afc8e248ae47a46be4665fab383c91d00ec1030, 0x498316de575931e52a2217d31ff386190de59f8e9bef186bbed89a764251142b, 0x239d02744226a9f6ebdb518fa2eaafc4e8728692b1301d7ac9b75ff9c3ed6ebe, 0xcd1c0b25776790174df89930c203d03c08776329ab97f08e85ed3a665aaf1e5, 0x1b848a5d7847a3a24675a30ddda9324ca52c811cef76bbe288158169f049c0e0, 0x2dd49a449d0e3081a2bbbd80983f03a1aabc8ccc66aa1df7a684a75d0de43291, 0x9f0182ab2429bd50a17d857c3769bdc1295342dc0e281de78dd731e7b48a58e, 0x4b2dce1364d376cfb73293b7b056d915f9dc45fe0afa63187bdb87bae9b7430f, 0x6d2bef7ccd4b79126d44a596a2722c6b9a9a0e6c59f7bd57518031379dc20a44, 0x49b3278dd2ac3b910ed92142bc45806b572f66ec05a516341ea941c5e3cb7db3, 0x3ed165a1bdee6e7ca3d43aac74356f151052d772ded8732df56434b626bdcc71, 0x72813fcd73ce3e58ebb889b70d140ffdb059e52d2bef5a2f3a95857feac04008, 0x4fad07cce211c0031a9e45474004ad923503a72ac97bbfc6edbbf803d3f5b197, 0x42f7d7bb9d1c589ced5f9020250758c1f8e811100cba4c7536a48cd01c5fb845, 0x16de9d5d8323b37c01f517b41512e13896e955c44d1d233fc1af40d524e63578, 0x2d190d01d81d0d836325cdd0cc2ef7f9b1c60cc02ee74057722f2fc47704bfb, 0x159b2d16c667c80b0d9139c68a299d160ff85709a224d759022a58854da2a1fc, 0x5c98440ef1865db2a173a15c2c72055492e614220beac550779a554696b0707d, 0x66e8da0da3845702f774b8bc705aa647df73cf849f0cf7a293f2e71c05e2c272, 0x1dc4484fdc9a5590f622f61e068650c9ff09d26cec5a1699bcbcd66df2cd62d8, 0x4501ee3f0450facd2a60ba10dc4976dc6046f53f1daa0222c209783f42fd2914, 0x5c55f3d932daf8a1059eabb0cbd8c792fbbad2508a7b19ac10263b95b272e1e, 0x690e724d6a67e102f110ba495afa3ee2c5017cd30aa8c3a21664a2ae10e42148, 0x9fdf9091b38d75617463952ef5fc0936bca2ff08f31163cf894e8d823d429ea, 0x1bd8a25ba029d68331db35552316362ebdeef633faaf8ff55520f8a13e3b0841, 0x250257bb426745c7a1681add867c59ea27bd30cd7c9c05258bac74a0b9197a93, 0x50a4e9ab9bdb0a50ad2b6b919d6924240a022a62b0fd13a6bd8db2baabb1617e, 0x257ee6e6f04cc12fea4936919d1757e84a6cac5a477e6fa46333e7c61cc96a2e, 0x3308da12248043dacd85e96087c5d8f5c429f2390b32fe6f0880f9ae582fd44d, 0x2b563ea84a92d03193495467e2d4c97373a94356fc69b3abe5c25fc9012e4127, 0x5ed6bcb28092de598ad5cf0e03d05c727d97d29a7e85511f4b17c9cdb02647, 0x39c49a8b1e43ea70dea76c2b65b35fd96a99f6b6c0992a9617e76b73d812d0b4, 0x44e513d98edd6c0b6505463c86479277b6882996a001b79cd9ae249260c1aeb6, 0x37ffcc1c672573d6c19aee1a330b771ea17b402b2756ec97b75cbedb177f2612, 0x2c4684babe9427adef9ffa303611faa4ac3ce066a8206401a61fa9b268ef9603, 0x24df9da93bfaab10244f3ce54d9a81bcea912dc03e64255dbc9f6cfcb9876dd5, 0x97fa0b249413ae5d43e61f54fe836d2f89de0b4f47d381f7660fed6f43ab53d, 0x6c9aff4e5b1c1b7da21d355208e406d76f7da0f2291a4190faef7f01fb4b8fda, 0x54c787441dcbd3816804e90aa84309114ec516fe82df372ba3091ac6f6c93ab0, 0x658fae2e2fef07b76d3e5c7506f58b9f09afb79fc9679a0a2446444471d947f9, 0x5b086701f542eb17a8ed5d679997a3ceef0153a4228a6bff7a729939892c24e0, 0x1ed1eab84f773c5a6bd349037ecccacd4f589a30561f3a6166768d5145ae127, 0x300de3aba049ea652312c1e9d798dd4a1a11a0f6b8f7b9b87c4fd2e4ed04e550, 0x18b37bc7412aa2a4f19403d14566426d63a0bb4fdf76886b73ca902fcf0e43b2, 0x4bd99b289b290e25707eb063bd36465782a9cb962d5e846ddacdfb81c977a394, 0x71f836f4fd8c47a6b1613e32f4cf1580790d1ef6ab44c2e37954ae457994af64, 0x439c60578b1a65717c4976be776ec112bfea1e89c026bffd4a82960c945b5353, 0x64e0c634f5070c1f7cbfc367f8aa8345edaeb99db558dd4641631725d586443f, 0x73c33d958c520e5a5f2d243dcc6d3d8cf5dae2024de7ab2d158f3b25a2b8a859, 0x15da18001dbab05da15a7c9825ca6171487b80c0daa0c00ca92486ba1e02377c, 0x15691ab3b3aadde3e2562352902646cb0fba81c69747efec2dc6c9628476833d, 0x1c576cb62c31873ab971c894d68e5c6c305da34368d85130621eb60396462341, 0x68d0136372e722932864dcaed19717518e72362a3ecc3e18385e365de5a118f6, 0x1b93cedaccb9bd11b7f6c4bc8239134449ae34d4fd141cebeb639f4d8564ee71, 0x302b45ec29d7584889c1e159bb8f23f02ae4d7946d0e3cfc592ca0976bde5496, 0x2e731fc009368053fbec7e82380bd9a681255f2020fce06a16ccc7b38a981c6a, 0x266bd90012d1962946cb38ea576468c2b8789a7cc5cb195e0e6a51e6ad60e1dc, 0x301ae6dc8ad8de74a27c716a35a5b9ffd45356307db67b680b9f74a70ad5cd90, 0x6ec49d28ee60f9c6befbbc0afd813a398343094e9bbd8591cf4a1011cf30646a, 0x1b8bb151a5a9a9bf46665f7df284be8936a94bdde0bd4234c7559895591e0de2, 0x286b3111a7e713d2a5e61b82d23244cdcc88a35af062405a0ed28e02eb67e52c, 0x38d60b372681bc01b8660ccf6409e32cb53f52b9f6a64774a4b675a4dc861827, 0x2e492f04977b701f7a814ad5546ad45e4a99176e065653f28634f93b8aa10854, 0x24b5000b8529b243380a08b11750e1c5fcaff9eb790e685637e2ebf25b68441d, 0x5d16dc647a92cfb6bc025c0b4fdb29b1dcd7056ae6ba98600cc3b0a18155e63a, 0x368656c15077bd36bbb6d91aa218e4119ec749f1d62fafe53fe4263802e08654, 0xafdb87116e7717babfaf4691f4fc35915a1c7cf24f4036c6cd766bc49c7ce8f, 0x441271cc4215127007486747cacd540bb92254c2c2812249a9e5fb4775e0947a, 0x73b2401dc399eb50b928b24bb8a03f1fb328bb05b506cc561b36789ef13aa2e2, 0x1b4b54370f2c963407b76fd012a3af3949795cbe799005b5af43230ea53a7fae, 0x20c9b8c22ea7d7435e4bb93b962f08e842d9d94d364682ffc3a9bf62dffe58d1, 0x5a3e3b63c782223c42dcc3e4b80a2bd9bad15cdc1a4ce6d40b4ce5013917d9be, 0x27dc263356fae7df5f6705a2cb2be2e22e3976e08630ea055b63b4b8972d69ee, 0x26098756e39d9aade2145df1f469ca08e78066d4adcd81e358f75d8dcfa51318, 0x2845c17c982be4ce4510efc05735cbfdcb5b729ab22f670cd9bc19f0769be00d, 0x979b332e1d437509068b8a81c7d724b9b7442cd7ef67c7cde7cda6ec1ef8100, 0x13ea50bf65a7eca09bf741509c9eccfaf34dbee3843bf9e39bc634173f3ace92, 0x732f66fa2cc0dcaa58ae3912ffe10161038991e432d8424c5f33144b44e5bf2d, 0x58154a9e1151ae995a14ae98752d413050b95a2af0c1beb1b8535ba119ec2a76, 0x40dd03eff86b07a7a918aeb207a2543e2db165f030b4dc040a18f8a00f999a03, 0x4e9b271818e0d9b22303681024188cd51af60f4d3d4e587c39ba3d7df4b2e82b, 0x63c6421fec6092c3fbfde5ed31f1af647a714d791aad8e5ec3dd54c768dad3a3, 0x49a4062f9f6f2945374004f1768c8d0571a43fb53288e4c076b87798cf5fadc4, 0x1592480de043817752eb48259ccd6fc9a31a8a912e30f6adcda8a976337730ca, 0x299dfbb92a8c6ab01ba499e01f667685878065f2e46ced31c3786af9f977f630, 0x2d61635779a6a6c107d06076e7da651b2227451e962d192ba267652062446d09, 0x53425290bb5534b510c6ac9ea63fc8f318f89a300f106b008c6c9d8b2448736b, 0x1bcc457cae85eb276e90e43bfca4f9228c96f1e24e8695f05a20dce6ca7747f5, 0x3b23ff7e4dc98d6212f5a020c38ff7d02f0392564ee732f7f4b23565fa4e8f63, 0x17b3d1775b874d3d9f6bb3ff16835a0baa2bb803634436a62a41d435ec9915ca, 0x147ae79de878c8829f8a9deacaf921830ab1cd52f8793691b30c9b5e7342ba75, 0x5f82d35536a86de5470d66dd4b2e82267b27cd624b9e68e765be63bb695160c1, 0x92f6be020915dd9e52d9e15ddcb7a9eab9f300daa283428b165b01725d539e5, 0x5c28beb24de48a5eed18ee2d44753c805e47591425275291a9b10fd4640426b0, 0x39c7347087d1d57dcca4babfb7a445506c0e7de9b517efdeb32a7f373da29a23, 0x6080e5bae847a1bd4775ef7a8f4f671049a709ab83aff32c0dc80e7106af2203, 0x3780d7be0374c41aae6183ed1a8ded46d4875af8cc0ed64e5033f907b50c50f8, 0x1ec6c4f62a6bd3408621cc79d9eef803d2c9146a6e0a96a98f17a85cb41a7f20, 0x5eefa6ef87aa7d18cf908a1987e64c36f1c1fdba91dc8d46a821f88f0d306d58, 0x62599bfd2b054da0b32c44a943c0662adb03e710ab6d91d749cb6711dd7da29d, 0x1021c98b350af4b49cab458c96c923b6c50400a69d9006cefa93b646d4ed1580, 0x66424c4ec0a325c74b2765646b6b4a462ead83fb46274f0ec740635c576f8182, 0x6fa58753c5e1d3159350e44c370c658838b3df8f4ab4e861b0e85620d5940cc1, 0x16e2c37e65b815108bfcffa2483fbabfb799f33379638a2701b2bfdff104a131, 0x989ae7298fdcfbc0b9cba22a260b2f8cb491552cbbbfc3d591c4180c0b3349d, 0x675d4d6e9640b7f266134347b2ada9b66626934c809c612e0cf8ff4bd0ebd4ab, 0x1edde00f740149da78ea70e3bd7385f1a3874e364add279834e74d52fdcab6aa, 0xb424da8a05ae9388488c3da609285ceb864093b5ceb32b63b490b32f8e6c9c, 0x6de3beeb54cf5a30adef803f3a36b69eddea27fb713fa16f207c03e442e36697, 0x16846e662fce6d73780ae2b477152b3e39896144dec8d7db0c735337c46546ba, 0x32fe3a4dc4ad4c0b2a2f1b77ffa25dbc0d4f5ba9f5cf5557a446552c1be9c9c5, 0x4fb434fe7c54a8c578b3d0010b2f249bffa16b4be6db2f1a47e793c9a2ef49f4, 0x52307e719259383ec7c989c2d124318b0dfcd138caff61b28a09a9ff5695f80a, 0x1aa2f1c1c47d1626b9642b27d09cd29b8feb0ebc0b9693da3d7a27d7da558e58, 0x4cfef32dfa5224a5f0ea9d36e0f6c11ce57d9a9f79e878be7adaf6bec5272b4b, 0x65872408bb54e5b55a6cf54af167230127bb587ba9bbd2fedbf37c74f162861f, 0x6474ef5ccfc35af0eaaeaa347ba84f0a9a63941d498ec96a05d6388c17619013, 0x307bd004c28c211fc46090e5d893a9f5d85324f84d87da8ae2a3382ce599eb5b, 0x41530127d493f900222a23c381cc2c2dfcb4f2545d864926ffad873322513b40, 0x126a955b5c5e65566e42c68f3b9d246cb521502f6181f17cf9f384c0e8848d6, 0x469e705a6d9ec42ff83f0f4b88245bd141ce87da9f5dec89f2108106bca39ee1, 0x370e8ef7843c78aa4d2c8e934db69842219bf34a7978ce348c82eec33bb5c5d2, 0x42b780de885f6482dc411685bf5ec60be3d86bffbf09bdb44962729eb9e130b3, 0xa2494755f723e06d4fcec1ed891c4b273d0e5b8c526e04b9411f37f227bb896, 0x4270408980dd3828ba2767d2bedabffdd74de65480ae1b7fa584be69d51e68c7, 0x38eb02190d58a5cd230b34cc0f3facd3b7044b9498ed1396a55c576257c16eec, 0x2edf070e182bdf8e062ff5dacb5cf0ee15712171bb68e5422c20461d48988df2, 0x16cc74c7297d91e3bcbba887ffc83abcffa3640ae0e23884b84236fb05b9f8b6, 0x302dfe1bef11542f68a949ffc20ffc18dee2287069ba5adfdb3e1fab7ebb7b5b, 0x6f81802c887e8ece924b414be50c9f7f4f10359051955a70aac0935396642c2, 0x4cae49f96d07d54d2195b5ffd01933571a006a66c8af5d4ee0554adc33885206, 0x3044becd1f89f85330db9d88628a1445be6dc39a5973c4c9aea16cac20074dee, 0x430722c96a1eac4e66850325dc6953d25d1f764f4645cc2ae878e60bda007bb6, 0x67d6c9cc0cdcb69bef12d42180c34ec136a673beaf5f6e362112ff0edfbc166b, 0x295294f757ee7dc8e47ae077afd2d5e587bf37838b1499de429e7db64d9b01c1, 0x704dfd4473e7bcd571dac1c09f24a993861f087b2d3bdd1c956b7978d4e81a0a, 0x3fa09f7a3bf6e2679fdb9439d23fe4a8f7f1117b51c397d9bf97e3ad13a39400, 0x6c82c39f0df0fcadc79d8ae885daaa568edb058fbbecc294d602c92628404d9b, 0x668694f544dfc63be4057f5b144295e4d42d4fdc84109a5fab7f8dfd99013469, 0x6e9e0e3f440a65670e86f9b0cfddcfab37a542bc2de66abb199d2c7b2bc89a89, 0x51165240f0726ac0ca2c2aa4bbcb27ef35ec63993b8ae37d1149fc13f26636dd, 0x226d520f78545cf49f6797e2eacc0056f9f51ee0958b58244fd25522e0632d84, 0x655a9d4331ee247d60db522b248eba7d8270b61909b6428f19c330e612179de, 0x128d928045e76e9ff1030fe675408efb72964805e38451032b39947d226878fd, 0x7eef94f5173b1c4ede1f50393dfc3dd6fa504c8df8af2641fba4da86958afd0, 0x57b68bd5509b001765ae5d80db91ad0fd4986a96d7b3dd1b95ac90f18937c7d8, 0x70c03b6998816eeb69e16509e7240fa8ba735e36bdfd25a1b49289f52572412e, 0x3b4e153925082479751de2c63c30f598eb2ea174650caf1331588c2d64ec02c9, 0x625d6bfb09c6a4224dc21271aa3e2bff3765532a4aca9a06e32e870a2ce3add4, 0x1a04482892960ec265490cb35fa1bf037fe05234b5a7aa1ddfb9411198b77ca5, 0x13486ed4811771304e6cbaf1cdf3d234e70f60cabbc575ff61e0685040944665, 0x6634f842fb36e4507091040883d63c24448fd1513a5ac3840616239c495cf809, 0x47e5c596da0f6e82507993e3fde9f898159a83036d1c834d02e59b463d6b46ce, 0x2e3c02d7b44f0b8e0bcebab310a5ee1543620f3de3d25535d1b6ebc12ae84e2a, 0x115aa157aa461ba6387c21951d9c8e3bdf55cbff3d4ff49cb611fc1853a529c6, 0x2fdd3704b8ca3b4fee069d8ddc5589b9ad041d79b5f5df8d4713af6a002276fe, 0x1e5df8f4a8680af6a2b8d0e7e1eebfa85ae8d264ec768aa14a8034567c704b9e, 0x5d20cb3494e674cad4c82cee9e85274fe03ab59c1bdc32f07fd0a1f98aa38f4f, 0x1af3ab04671849c61eef9f42ac49b562ce457327d7cb4f6c90b97b79c0104f09, 0x50abc885ffdbafee3dac0e098c104be493a9ac3a48c6bdffa6abf6a47eb81569, 0x92e6ea2627d01e05b174cb0e28591458783e09fb961f0281ec125f517a3fc8f, 0x2a0213665db0fd22aad1affdb5f482ef1f9ba9d490986a9a576746a36ec58a0d, 0x4a16f53e50988cca6d1dd6c694a376c6b1de47587e8baa7908e6b61c9ed40417, 0x306385efb2e0caee6cb8b29aa305b8a955200343e65ca1bf48aad5f431cc3a78, 0x6a0c979a446a3c0e20a323a5b79d5052c40cb32e308909356e0a0263dfaf8cb5, 0x164fb27f6e5c5a35b8d13c42005abfaecf6be8623a3932164514745a0c96e86, 0x6ee422cc25a69b7477defef417e6dba9b9b77c9ae1b5cd5877ee83fabb51b3fa, 0x35f9511422f1565c4e66548139d6f51522b0aee9130cf0e132d99e475b664666, 0x4744ad9346fbaf36fc2ec56f4aa10f356509ac09436b1ecb0c38cc10d05855c5, 0x2a76e6482a537d1b09a6b6772d9f9e2d14d57e1a6aca42e286038ddd8e7cfea6, 0x371e2effc19e08e76ce08820c9570514a5bb971365bfcadac922e4137aea5c36, 0x6780d5352c30a0ba05f08f7fdee25df5f4e95e30f31d5031957ff3aaa4381232, 0x54e50e6b8bf39bb1de92a51776a19aef21945cbef16f5273561ab1f7373e5584, 0x54941620b52b544d77a840eb8d65a1a868db32a0717d86fb522f7c280aa1374c, 0x2707291690d6a64ed2ff308faa19eacaa90f399d71419be2bf8c784c3912ed09, 0x4fb07f5bb31fc55fe9af05e1342aee2677e00e817ba53b43198c72855c487fa4, 0xac639ed2474754e3f1e5006d6a717fd65ac95227ca372a5acb1aaf082f8e3d0, 0x2b59474750ec7c3bef75edddae75be1943fb2d372ee5ef27e0ae26e9f685582, 0x10ec1822d7238a4a0d2074aaacb180410492d4c20cf0045ea31cf55e7e00b374, 0x4f1ecbb32c42fa7984243082c734912c9dd8904a8ae44f0305534377e5fa4055, 0x723e9b9e0ec75fcff60ed5c8597b9795371e838a15f62987b347f69b3f1fa05c, 0x5a8f11a4daf3acc7df2d2a9cc6af277cd184769482f278bc553045537c550304, 0x5bda9c7c49ffffc5daeb8eea262618d623db7ecd35fc55a81b37a219dd431b8e, 0x147421e936b976b0b4935cd3dfe98224f8571ae8aa7731f701eaee49f6fa2224, 0x4358e00dad0b6f365de2cc668ad4a32352365dcbdff4aa76a2e76bec0a3fceb0, 0x30bdfd712cfe3259ad49df7b63bc4542e1e3d0a821e0814a1aaeb82c5954378f, 0xe2e4089d2ff559afac2a23f749caad6a4bff55c264ce590c3cbbd45596ef03b, 0x5ad351ebead08d916ad3e5558b759994dbcd4ca51bedd3c69bb2bcd262e8bbe6, 0x1e17d226929031883f2b59be2e0e0e34588cd112e7c8dce64173a24b6be61eca, 0x131021d164b86074a7a26854c6a1a4df1a510a607f99e25ccd826790e7f34b4d, 0x3d44ffb21722263268874f9b0acdd79d7f1da73a8686b3c5035eb8459d5c7f04, 0x63b969b5246bb2874ba25529c3090d8723bf8b55c755e7cdf57bb54a86099bcd, 0x1a4ed61bba16492ce850ede65eb7d67b74744a46e691163e5213ccd272137431, 0x5440522f7993b812f33a320b8ae160ef3ef88db1519d15deaffcc69a2982a08a, 0x424f58549521874fb2fa5aff3385e9d8318770023bdc74ba44f271673cbf619d, 0x4fe034b6523c14a72abea7ba10a1f8cdfe729a4def19a7cb0baaf8c24462bcbf, 0x585e163b0cdfbc405a9d1fde1c6ba7152107c199dbd2f2033eeff659bb661371, 0x16aecaeea0ae2ed52ea1eb723e7b4b136525552f40465e88347cfe991c870ab3, 0x5902aff7da8b19048f04ad040e2ce649ecfb71f0556cb2a63917ae9676e4ea44, 0x439d9e551d3a9765e88ed27a5f621b0d00dc660db37845c6d0cf791dfe30a896, 0x3333fc36cf098b492f954894fd07848717974a00937eccecc0933aad36788e80, 0x59e6bb6ff2c9b685554a0c4f02f4ee4e9f6972a465348ef9f2f9e4e0873b4dfc, 0x60be6717d7618b9135d7e6f5543044f33a44601fcf3a4f10211d944ec0774259, 0x5ef3d59c9ef062e47f60c869f4d3663f5a858d1189b2951ba4d8aedfbe13298f, 0x1b4fdaaaafe38473320bd65c487bb87d7675f7d1df047f3d0f7174c7e84b089d, 0x10e77cc710eb7b729bb2c43a8b4feeaf915ad31c42a62645e001a219198ddb36, 0x5acb3a46c0d76b7fbfb8ecbd687e2f3ad8eef69b6eaf6de1a7f8977ca285d607, 0x5926605597d094407039b33b5009cca8e436279b1c0c36459c213816f264f938, 0x73bb441fd2047a5f65e890f0da54297e362c6730252c98b871355241c1c172bc, 0x65304aeabf861290ef81e82155b975d14b6dd224a7955883ef1073e2f6810fa0, 0x53d994b452545d2e44ba13846d980548368b7c02463fc31d1413e7661380da07, 0x1e40b55077a0b3b3c7e0f2e294e43998e351d59ba2261761fa40806318fe56a0, 0x4d8768a0fa6a72bf801df2d0db082ba68bcde990ef57893c4edbd7ac93c4aff6, 0x5890ad858e20ae7d1390c5e4c74253549f2a0c3c745a23b70c733892c3c34245, 0x5552a2b76e8e1bd2d3115d8a3cb17e0262ac725aadcb12068899852d8f02b505, 0x70cae59daef376c94089405acc979f53259a369e6237e81952293b00ece9188, 0x2836517751e62204011fbadce3b709a7d0bdeebc28cae9294ebde41d53efc9ff, 0x32690c9b00a9a32d87660c7aa5aa8674b59d25ebc82287e1401a38130cc903a2, 0x4a5a2e3d1b42b7a25e19000241dae8a6f6d6573ac62e8e69632cf984e4b3c95d, 0x410edc83fec3b203c7165665e692b8a21e33864c424ae9a30b91ea9f35181cbb, 0x3c87434220461efd8f15490500daecf120ed7cfc1a6e38fc21e6e0f6ae3c583e, 0x2b2b2f54b7511bb5c09eadd27a216d08b5087ca4a04d7761cf5ab5e0cc221374, 0x246c6409144cb6d7067de56f3c7cb0b7da91aae5bed395e79e19ee0f92fd2e2b, 0x4fac54a0a082bc61f6ea346cc90aa0266502b43e814c657d8ec353dcf38d2256, 0x108e913df92ee9ccef6a3c77b46bd666dd13f38507b9bc539694c0be1d6400d, 0x46b30b9788ba0a1154240bc92271374b0bd2518b8eeaec439049456c964ef3, 0x6e4b535271e6a68968ae502434b6df63bfaea13ddb527624ec50377d33c8f10e, 0x6aa051cf005b736c5d4802c938af7e8bff7e350c869a7648eeb5a4ae34b21aab, 0x39f464945d16a61cb1132db50c3e60b95d500f4958d6bce339c64e8043daae6b, 0x50985712702474233aabec0e84c2417ee6a298cbcb6b5aa6812d79dac2406d0b, 0x54c2dd2a07b41509f6f230e322bd534a31fa13207b8932d3f3b2d28393a7000a, 0x4f0f0841d5bc91c0fead44e8c9f3ff61bfd0d790c9b94f8771280fe2829220fd, 0x416e40d4fd1252427b4a969e4708f391a4de32c17154cec3e7b373d70e03e1a5, 0x6f467181f82c3ef46833515ae02e342c7687621c29f8efaa82ba861486ecb3da, 0x2481085f6046eba4b4b3c47362ac2f2a3eaec3a73ee1f43930b2baa5675547fb, 0x612b721d90a64b0003bba8b2f74370783ecf5e81533e301daf68eae6a91b5fe3, 0x560a57a50466683df2d957274881e3669270bce29fd34dccfa131392ca05df7b, 0x2747832da45ab65068f8fc903630e58b1d64e07393bc9fa34f64629a46b4804d, 0x2bffdfc130484eef80b87b0b7ebd6332bb048feb43a15395167e1f9e90609621, 0x4418d5261526f40a0cf260fe45794fd28a6696eba199219104b7754cf8a6ef49, 0x27f25d4933bfbe60337f6fe633393bad9781074a9842ae510b1d7d5c0b4e8149, 0x2c583c1ac163124ce179287746c147a07558d5bce5ff16c5b7430309f5855d0d, 0x66034904543341fb08d7cdcda1b03dbd6b1a444c60f4281f6f2db8d758755603, 0x1c5e76ffbd4843ecd68acc5193c3c8472dbbc892bf64a52a928cf86b0b1a5d03, 0x262766cba21915106559e7f3be2525b411b941353f4e65a0ef6541d6f85efb3f, 0x1b685b4bd3df09f9830522f46d085dc840d9afd3e7239de94bd3c34f1dadface, 0x179a44c1c17616aa42cb6639e857a2e6cda04275d483fbc408b90143a9e807ac, 0x1b41ea6662dba9f4d853b209003287bf9876a99db3b46392922ec20577832cb, 0x5528b5d45d4e568256c25ac73f85d906ebfa516f89f997c457c61d9c36cd585a, 0x3ed88a2e145160f00fcf1949c8e47d8a2912db7b6970e112683813d100b5d4cd, 0x6c1ac90ee07623e2246edac787f0b4ba7c956b1e15354a3818c7efc8a4d745d3, 0x405cbf20d7721a8fd0d6db1aac3040f545bc2e454553e0045a5b9defb8d3dd9c, 0x4b6e0d274148f9efcb5df23880548a06be8c1bc4d6434d9133abef3c8c7bd34f, 0x3068aabb5dbfd4cbe00a13a2330ec26f529e72b9b16fc6f411392cd992ee34d4, 0x3c768b27c4a1545865b28a1951d086940127fb2867e77556217345244c4c11c, 0x500e0fe715cd51e306780e16c0d7a7c4afac5054f82215eed2b600288a991d77, 0xc8e148863bd9b5b44ce0d761bf3cfb5d041d6fd78ab256de334d9f6c731c027, 0x4abeccf223d62494021cb26c502f6b2251285a8046d4c181def72ea23d59f9c4, 0x495890dcb470c2516585de91bd9bf543c83823dae23cb7b8a868e4d9631011b4, 0x6fd7d4fcb1f60df7b9a04883fefd884b3270ae51de163677e894c44180069a3b, 0x780866beac890ea305a07bb834dabeefffff645624948bafcf64d4e691a3ae6, 0x3ea411a1f7d078786056107241b13649aa8a8567f48f0a9f5465b14d4ba7fa4d, 0x1991efe48747bc42a3a96b5f33e8b41b1feff9eb8b5b41d92a16aca5761e3fdd, 0x622eb83770be30cf13f73e4aba534ab7aa097b6efc1594d92918b8a1c2f43eb8, 0xf622d7f0e1ab01a2614564a764db663280e3420bfcd2b200d443ca3d35f0a08, 0x5a8aaa5c7deb05647ec059aea7ef8174d137c1b97b4646b1a82a79d9aa61c62a, 0x138469496fc74d3afc27454fe865164dab4d6cc885b74cdb8ef8298adb5e8cc2, 0x3e3429130ecdeb22c811133ffc2efd6abf906ff18f465616d42e6820e8286f6c, 0x62e1ee451ed07ad35a628e0fd7d04b9d43906d9ad63f99b728022fc97353e769, 0x27e55757599940965dc0949fa2acb25cfe91b6d621bfb5c0be1d51d219678c47, 0x474cc198fbc0c1c272378724d638f097820723b55d21db85a62e9179e7159738, 0xefdf0d38a78462f13fd44c839e4f47387da1de3dc88aedf623eacbac8b97fd7, 0x7277df7ec4e4513e53d6bbdef126f51913096dec3ca1797ea1280ec0fbb10467, 0x3638820cfba75bcf52f03814e0a9d348e5bcddfa3c6aa639f2b45b5a70a488eb, 0x3c0854955d9265f6c4ace03c32961617c8850d5ed3995b58da8ba58165948f3d, 0x3298aff5a8082f58310687a273642877b6bea8dab17681f1f9f9a6043f6ad6fc, 0x2667c67113be2d1de4a8048e66feadc81432a2ba5b8672f0be871c78c6642e90, 0x69b06de75cd59866098e71553340e4565d3c3b39761c1f0f220129c9d6d2fea8, 0x4382b188d2d6954fb75ffde91440fc35811ffa576ff56cb3b3da291c181583cb, 0xa786481b5df4498597f8a3c83f47f0e8208400dea53d5cd4fd498eb207745bf, 0x1c070982b350917cc54c85db31016b3703e5b0a6f46e737150751fdd4acecaa5, 0x1c3e99a84b5abfd4d5c0b3e335df6050c7cf5b345fff59166c35fb19c2060bba, 0x69e6e564f101b3ca532b510e108ca039edf373b089403c6d681f2ca195f76db1, 0x66abfdfcf8f74df58b9e813d2cf32c3adf0af29abc8dacd81b0e358727fe6792, 0x1dd3fa7ad0befa80475ef9ca29b789648ed7745b593df80a564957d52a529c48, 0x6713ef069de1f5bd4ed11bf3bb4d77d9b852e04da9b93470f469d6fadaa24ca5, 0x240ba8e0d8fe8f5f361439683cf74aa7dd1ec3aa01c2af0d2171636aed7d1bf8, 0x8c63d016b57a898cf5a06428e6203b7e571fe13d5ba1f375835657323a3c54b, 0x2dca9c5cfd8f687294fd88f4f585d1e88c602c86ff0aa49b0441809620f368c7, 0xc934bfd754d0ccc2561a28d2fb2c63c925711ad0821b6ff4e7c51056bd5052e, 0x279ac9ddfeff4b8174926802b68d42350b656e715154b810fe8899f6fea9f562, 0x46bfcd83eac48f0c930dac41b6ec26be8c917c708da5424bc6c05274d7a0182e, 0x2a1882eec9bbefb972b4914601e2f0d694a72b1ee93dcd188fb3d49e6dd7a92d, 0x242642c368748bb5c827817b369aa8e4e8e020e24000e7e9a8dc6fd09cc89aaf, 0x64c5f7554bf3abdb2323b9e0e31ceb68d1b560dd9ca97b1acaa25a05fd68c80a, 0x1164dccbaf4f004fa8ed0b94c7980f5bdff5c455e5ea2d7c3815ec763c1044ae, 0x4d8296b652853024799561d5e89144e839890e073d3ca417d95b2d6b655353a7, 0x29404a0c7d75e647d9190a3f32cc05e672fbf38b8ef8ea9b6c2ae9ed1cb4ae05, 0x24984c8995609f4c57f55dc3b7dfc8289621d5f8d1aa51b1639d87a033cd91cc, 0x5e0a43761ff0f89482e20ab29a563395a2a10d6f00e381ee6f8a1bdf53695c77, 0x1abcb35cd3f2f6183ef26cc27d921d1b720526416e4e22806853c9d6ba922663, 0x5a09445c9a1e2542b9e3312d10f6f1077787bdfbad5fa80dbd2bdc3643e8065f, 0x30a86113ff83935d0b32196eb2df2b9f528a1ebabc99594b5700faddd87a70b1, 0x30d5f822f0f0f41a7b00c91d367e2b91d019f3a9d2f3553671f80bd50d35c9bf, 0xe9704f5e26da5cc4587203125a5244ffdb2a5553510d78064619e655a4b072e, 0x2f000ac90f3cf644a4943f4b6626344676814e4dde64a8aa7fc3ca6bbf0d43cf, 0x35ff8c716ed2f74f881ccff4d458e9254ad2aa5b481bae056c52126df8ea624e, 0x3d36a72f4c164c0954b79bad96e9c6c486b3e7bee20fe21fa14156b0a23255cf, 0x483ff87d9524b7ffaa825df0e000db3758f753719282a1753cc8ab384bd1aafe, 0x32ab139b38e166708979fc35d907e40ff2b029a981ef83a29fa06faaa49d6ac2, 0xd1f0f9be8785bac8ef73511d9b0a4971b076e867c2e68cef7d7410e88ff76d3, 0x5d07f3e5b2465ed0b2fa4a4a81e1f026f4e74f954830efd2ea7a2d99753276fc, 0x3318378340734d81295c6a7dc2d9cfa3af0adaf32692b4f6adbd22aae1f6f83d, 0x72e5f2c25785e03ad08cb8bb9de25abe52fe9ec5ead63f87f09cb9491dc839ce, 0x73b1669d95f6dd1b7264f3212ef6f192ccd7bcf10a8a4b46945f5e82dc4c4123, 0x270bad3b50f4d9970b3e39b92320b243d70c820a594c8a3187b55e1ca7a3fdc9, 0x11ce1c400b2b761c316d5202cf464af3f5c7e18f5a2fea12ee366bda9d4150af, 0x1898725fa85531577933ea69f5c6ec2bb26b7b94e95a8eb37a38940627a80c67, 0x20c3d5e496cde3445263b83c4380c7d31f83252cb9fe4d71c9f394e02326b97e, 0x30c4763a8590e67f98a5f0efdc130f260f36c6994fb05bac492855756e87a3c4, 0x1bcf38e08a66c77620946041cee45a3e5b98a1cdee5d424ad3ba0db33deede46, 0x5a1c4ed8aa47a2090c189bc427f0509eced473e09abf33a969a39d0ca413c8f1, 0x62f585a66ee671594db81b011ff82d675317ea1090b10f62f5aa9fc3f1447362, 0x5249d314bcb9ed291dde1b840c7416c00fb6cc137589f43a68bdb2b0688dc1dc, 0x384f53e923500be9bfe70575b760e1bb486cb6f9b27a5065305709ae80cadbce, 0x2dc82db0e28816321defab9473600ddf60dee3ff1956f199bb8c1e5063b61c92, 0x14d1a71149785f2f80ac85a1e3111b34b01ed474793c37c9fe8f4d0591d80058, 0x543a97332bbdbbd58184fdb673afbe45217fc8a33cb135a370692db503c35240, 0x39e388d378d465d9cefd5df88b4c65bdac948464cb153dba5b63a3615e17443e, 0x2793fd6bd57a139b05deb890a77168e619e8c767e84e8a48fa834550e516e1a9, 0x1276f5ce624a3b5c839b525284e63a6d23940249b4019a6238992f70593da144, 0xd97407fb849debe5c0e001eb579135d2d3d15df72181d6611dba5961a07683e, 0x3898f7c0b3b07370141bf9c9c2e439493de22068b149ca614a792ee2d2aea9fe, 0x2ca43a0ad5f86a1fb9c51c6673ee0a029b23557defd7a0e5c4076cf6b0c37802, 0x148072256b12b548194301abb4be7128cede3eb7e33218180670685f5cf47431, 0x34c5bec7400f68921c3f212c8ad4beeabb67792020fc712754b29a1abb32ba11, 0x1a8393de511158ff27c0e246fda867d196d196eca3c1e33aaaf840a3eb33456f, 0x3d15bcacaa9697c9bd510e8686cdf429aaf1a8b2ecb68444612db457abd2b2a3, 0x196338c7160e7434edeba67a6fd7e5cd74fb913c72470e2e29b951c70890fb79, 0x2f3a75815cc5819f8b9bbf45b0ea5d2c819e8d43a735f0ba1149aaa60afd17f2, 0x41244f1aabe5cad1740bb00948c6c5b32885d43a3c2ce1a2edb52e6dfbf31757, 0x64b6f96509876ec1e1e16c29d4c01a0dee1236fe15d67e8b81f92b8d95c23321, 0x5837f27300ef992c58db8b27772aca731c109669e64c3633df978b6368411b90, 0x524e06c493e3a48ed680344edacc6ff8aed4ca30b09fa3ad75d66296d5a450e3, 0x24d614849ee490c58ca497b463f3490dee33be2a49bad6cd8fcbcc9c6c3b4f9b, 0x45f419843590d7216382baecb50d2a19bb3ab0252c49a7ded2011dcf6c973411, 0x5914235e864d77525a8c60aa9f3837e02bd237b7838b9091801a6173d0404d75, 0x4414524c63aaa4abff3c8cc8f07dc3385682f325c71e42f7e7f4c4ae20435374, 0x53980fb48bd207727526b95ce51a30c7354cd0e59c4dbbbe3cda7acfb6fa5ce7, 0x4fe1fce508b0f6975fa28aaae757e38a64e4e1c830a9859badb2c7478c50950e, 0x171205be5b08ce0b71532ee54ca607ec9846ecfe9cbf3468f81d40040dd7557f, 0x4fb0e2744337368697ff1b3883ca141adbc261ae207fb5bb2da114abe5b36892, 0x2c4b5a2d98c29d21c344749e46804214f4cdd9250dface353b1fe4b91317eb4d, 0x1c5b044357002899704528120d7f311b0385007fa3e40f1b2557e1e42edc9115, 0x16a549d5d29b25b4923d2909a8d76128b7cb3264001b69271a285e5e5fafb19f, 0x3f70da680d34e34af7bb73333ae36deba7710c8a646774e89a5d4f721c1d17f1, 0x3cea5ef7674ed211a591b5423d019109b484fba476b8caf6a5eca872175bea51, 0x28435e9c7920e50f569f529d0d5107d2036060f570bde229ff17ab12991b78bc, 0x42fb775a6fcdb767df57ba76dcee6e42ee3fb06cfb3191814cacd83b11620b79, 0x2074155ce18f69a1473229baed55ab9c3769201e702a6267a25970e9ca713b5c, 0x3f732f04b0211d12ee4dcf68c269df4f1e9726bf94a50a9ba2c72404f875c13e, 0x35183d85c3c4f1d065a9f6dc6e9acc5f5659a38c11353755390402fd5282f188, 0x645463d2d53e083cf8b64a550752a80604cd4f4af5e2c20db4baa1c4f2400031, 0x2eefde41e362a943f4242b21db1299ea15b747a91b77bda532bb48e12a61daeb, 0x60960d76cd54955516e5f1b3be96ade94fb798c7f863c70e898a3ca3b8b05b85, 0x5a4fa092678739e074a724548d6fb21d10bd203958212b616de705fb4bfb46c8, 0x1c6eac5816ce024d2cebe99081546185d5ca48bf8d89d8244f066dd452d66ace, 0x207af7a8fab0e54b22789953d7b4e506e20e4aabc0abc5e4d3488ea49ee24956, 0xad3303a683150e53d5d2d7e0a70a3aba5ec59cd40bec05c92e0ecd052fce946, 0x53877ddfdcf27a1679dbb6e73def7f10d98577e042e72d17a7d4e16101717587, 0x53bfe2818840ca7ca1ee0d3a8b0d6bf6c494d9df00cebf44d18e8b8aa9c1b467, 0x2108e02c1bbd183c5fadf2485f39a2bd21764885c26a8683dc14dbb518bc6009, 0x403b713debd9d291d2c55ce9f2aa4aa39fd4b0ea1d248b2a07eb81dc09b1891b, 0x75e29dc1146a7b03a639061b21bc740808fcf9f45382cfceb819e05413176af, 0x576e2aff3adc4f973e1d64f8f2d3e95576016f16c6b96b1fc20fdb0e6c26096e, 0xcaaaf3cbe344e591c0056a8ad472e73751870ea440844ac7fdc590a13a38d51, 0x264e6c4b200e945cb08b2cee482ab28c57673f4199228efefee77d3c74b26361, 0x4c48a1dab0782a36acb52f9a79e107271040d6ee7549cf54a0bdd69fe25cc0af, 0x14d2f85bd00f26e2ea890c292c401c71b420684c026c1ca519c041d2df929ce3, 0x47f3f3ed03b327399f8e94e6f04310b4e33a1605d563029800a7378dc29f5486, 0x50e2ebdc44f1bfdded093c8993fb7727d6744d020bacc889830355bd278cd59f, 0x6c5ff11dfc7d1814bb83209b1ac46d29530212e53ab00c907df5d1f9b7d23d6c, 0x571cfecb0b42063facef241a7949d061e9336806227ce1a6c9828b1b12988eeb, 0x2dacd2ac961dfe6f33910e19bc154c626dc8ecc45a89b8b1c792564fa8774e5f, 0x5d6766c7a4fe357a35b0e7fa542c75d31f0e1ec71c41011ed87c77a04f61498b, 0x3d5d611e147651d9872c9ee7b030290b2f5f13466071d2e8b5a816b0977eeae9, 0xb4bf81f2d10692d830ec0c874633b959ab5babeaf83287427d6f0b17f8f2b7f, 0x5ae844607246c701c007fec9c970040c208f007526adc1815b0876b724219f86, 0x285b6a7138e90a009966ed5a64ebee308337bc0339cae9e307bcc4511735516f, 0x417ee82a00166a06df04dd4e2f769e4cd84f9bf84799782212eb7b58b56b40c, 0x4db254940a4933e8829dd61ab306ed04e1bc6b041c3c5ee6060b885b468bf2e0, 0xd220b70c5f528515417f7e6d2a8b24bd671e2b6c565b4a4f3a68202e2a052ae, 0x4f781930002513f5c87e0c418c6eb82a5916aa15ba802084fd9a5090cb2f5c71, 0x2ab3ee3e16f981a3aa2ab7362affe69980fa47ba4e99a443e8e0ad306a636a3e, 0x6be76f31f98e51d246595b3e011291d3f645eea5e425361311d9cbea067e2ef6, 0x62df98306d590305a3ed14395b2101c4129a3432a22f70f11f134c90b6eec995, 0x68be3401ce2267544dac97e104a23936cd78e137d0eb489a2d4d089d63bfaca9, 0x2bb79f22534da4c753b6dee8216bc4b6de84c86aa50e75b68d4738bd40877124, 0x188053bd2fd9d0ba20c4e698c8b10bef8ea0da294e405c2a20153c1dec42fdeb, 0x3a1f10b4edbdda154dddefa13d926147fcd858d44fcdf469488126989a10ae53, 0x76bd02bbaf188f5d84191f7e53fa93f9fbca7cc3496b3319280ba58aadf2305, 0x5520cbe410f153ef429e487960ea1c35c88e32f0eba90d4fa18fc6858fdc3ec0, 0x431b349e11a0496af7d76dd506c571afd1534fd57199ca52a854152292afdc14, 0x2c070598a77d6485aecf7cecae415af31c268e5a6bd77961f608c66d1faae333, 0x2ef7268914d80dd698c69ca2198377d19319847c6e538e12bd9c817d8cbb2358, 0x6807467556457d069f7aefe6c2b3bf4310d3224290583d7766b558d03ff04b1, 0x31b3a73f41725504f64cda23ab7d54dd1a2a9bd82f14d7349823ff714f2b2ebb, 0x2c15be8248890b09cf407ccad366da5bcd23928c08250bd59900059fbec8c247, 0x4476eed4918d139408a944745ee442af9d79ccb80297d483b55839630ea57c86, 0x11833ccbc9942bcdd88af55194b7da963a2fb2a3e39356b1afd72e35c98498f4, 0x52f66d444c6aac082ba8a01cf020d81a028a49377edab16698809825aaa82f67, 0x6c39a7debc08dfab34ab08cc5616d79686f5be0447411a937c80eadb8d76ce67, 0x5a69916db6a1b6e8546b62c541d88c7e8714811093f9904e2f98ab6da01fb161, 0x201b7b67f26831e7329703bb2163e868766cb31033beaf9d041f90ebe54de3c, 0x1d7d71c06400956e12efa3249a556ff00b111be838387532fbee4fe7ff8043b3, 0x42a2693a5e829c3f559d8dd9b11055e66d29c5583d274ead9830a51b8411b857, 0x22c466f2fa5294eeb77610bc546f82138694d2f3fe68bc0bbfcc22b18d1fc347, 0x3b738a5a2b456f9b278271c5c8b01a2d9219754beecbdc02feb812e6c858b0a3, 0x2f32ce17b632fa3413c4ecb2de424c93aa47c8c771989d5e21847c13cbf0b3a7, 0x2c1fc46ae3b1c2ab7c732ef99cd0272f2913898f9c197a6091ffcd6b24207225, 0x5770728ea831032c3843074d2c7665f4c6db3ae6fa25cebe1f5ac364aab60d76, 0x138f87f5ad96e7d381306aa032e75136a1e1dfc2036cf2a2f4c7be2a1ffd29da, 0x3fe5d8b04991fd0f95b4b134bc47891b65a2385ab3cca7f7544831a4420e4c45, 0x3c557d045a7585f4abbc004106b755456b4b5122ffb91c42a1f080701e1b764f, 0x6058fafdfb1966ec226380bbb5a2426dba83d5e6ade7070d7b7e73156a635d39, 0x1c4b9910a4e94f5cd2ffe4b7fc555e531ce737a4222a0baf237fa88ceb6ed1ec, 0xc0e02a52b9308a057e405eeb2396c4512a3b425370c06064e13d668155b2b58, 0xfc1a7454f8576f9adbb40d66c59152b79f5005152d8516afc0b2447bf295c3e, 0x2f1df16cd5584025c1b07e72c89d9e6917194255ea7ef8e5803620da131e4784, 0x2c7fefcb7dd75cddc2802ff295f8b8eebddb4299122aa8355bb7e1817485f94f, 0x72375dd1c8a9ad105331c8e78cac69382acd79ad556b11859fff52fa6e29e2ad, 0x7282df0ba2a3ab45a1e8b88b80f9d6cd0770dd1e3861fb1ca3fd1b76232813e, 0x7242f2bc8002d3a7085670eab5b785b00d69d1833e693ddf70edf0ac6686c76e, 0x62c30b37d4932e77c3f22a8ce26c64770a19af7bc7357fbe1a02f02377df1119, 0x26bf0b7bb7cf5259001b95e0b149d2e19d32b68a43a32ee3f5d5c6fb0743db7a, 0x66e10d23821f2dfb933c264c14e0c655fc8db4226da31c348062d220616333c6, 0x3bc12416117854970f99fb2d1803102f8b0f19adc2a85ec3d184d0e822db96cf, 0x1e6a1e8b01920d8dc854d9ebbe99139a2d57860006478d1ad516275eca4b582b, 0xe678fb9871f9861dd7aedfcc0e2e07395653a10f537ed80ffa8b3dbc9081500, 0x372d39b5b0231d86a6ff905bf62eb747298097fd253dd8e03e7b3b10b6a2d52a, 0x6606684bb69da2f97ce4bd46b71fbfe6fd1a887e73d237e89fe4a9043dc1fc3f, 0x46ab3c2e450052ea7ce55c9d7702904fe614209da1726af30b7e24baa05b0f51, 0xf770131ac865957757959953e91ee92cf26ea6e87a7bbb9eacbe64983a6e617, 0x1ece2351a99fe37502b05a9c9cb74d1966d60a69502930ef3b569565483fcece, 0x47af02a25c1da8600a34e6d27a07ebe03a019a14095b126755491c1d4609d3dd, 0x71f9233685fe7c2dea34ad419960949ee6ee389db748719af4fa4a652926bbe8, 0x2d897751fd3f6b3da6655542cb43610b0b436fd54895d30f65bffb53025e1b91, 0x73a430399ccdaceb4c4e22561025336878932f1a9b34dd2103af05ab9da0ab0f, 0x602359b60167d56a5d51ac2089dc187750ed774df77943c2e48f5b6f23bdd89, 0x5834ad7462dcc28e695d07000311331a9898e8df87cfe5dba44e137e81d9144d, 0x5671cf813fd4b5acf2df4a6fb23de868a88ac9dd000e25cbd7ecfd39403a6ab2, 0x2713c50eec383c5ec684953402c07c630031de9ee534ac8fa4a4427669b90f1d, 0x529c55d712149cdef6ab9fc6496507e9212de24207acda331143045b6580a99, 0x2bbf8c4a186e9e55d4437c15201d52b3d8355b859b56e689381ff9f4fff53ffc, 0x25cbec05a4a5f236da8f58747459ce66d9733f06c38599b90f1ef7d30b532fe8, 0x4a9321c6dd25e85ef7e04529c52acd87dc0e7034d2a0fb6b4e6c3826a3acb3bc, 0x3aa3119ebc2198f5b50558dd71d95446765d0c66301fc4e070e47d96f1bd321, 0xf682f7eceb0caa817393d3b74b7ec2c8e065526679c6b71fd7561e794072808, 0x3302e1c5795e086730728925bb9d7cc851c27144425bfc52d913cbcd9181eaf4, 0x320625f64e86e53162563d9718968cc3960a77cf9e751356ecd8e33270fc99ef, 0xe700c9ae78e98456af6234bde095befa57301c1072414c5a18b453cd22a83b7, 0x3373966bebba35352e351a8f80d666e323d98794f49c0693a6fb6325e67ef77b, 0x35c3b68b9b0e10c6c3513f53be481fb210a52771edf8c6aced7051e59ad544d3, 0x2fba70d0d9005f806fc64e5fdd90186d5680294cb42000c8692cfec358a3a0be, 0x6366247200340e9d23b8c1ff8d7920457003151b7a0536b160b596b2774d8972, 0x38d35116160a5df6076fcea3ed040bdb4cb2d6244a0c1f0de4e5b05c801b155c, 0x833e8954702b284bb77d2c2bc61c01bc98337561ba523f49526bdbfefe39378, 0x42000f7f64fe26fdefc211bd043d2234176bae412bd543cb67ba15bdaad0cdb, 0x4f41e839ebe0b65ffd15d2fbf748847411bf4f6fc9f71e1d2fdbe529050cbefd, 0x1b0d12263b97cb0388e018adb974d8d62d05eaeda1a73b6ebebd8b0e1163f2b8, 0x47fee64ea695054121f37bca27208a2ec0fcbb89b25fe92fb59944f851932d90, 0x4525f7c7a463cc5190f7d02555f94445faeeba39290389a6ae6909eab1cbef3a, 0x498e20a3a61ee275de96492fd49a69caae4858b4cd8a250ca71b93e4f93ad47e, 0x6eb7d459743ff6e1b311aa2695b44f0fac504648f5f848cec66e4d40f1575100, 0x4042745bad6c01d3f1dc82a6d28193750d46ccef9fa0b68b43f219765384309f, 0x5e4c49a0bc78a8d156b7706217c5755f383a0642e83ce53ed7dc6c0143f50094, 0x38fefe2f8e6f31a4f429b9f540b311f85f72d4ef9cd066f06849e387a282ef98, 0x627cddb560f33b07fe34eaaa9eb017108657ddf42a44e4be2273e29d4176dd, 0x522af6ea1b71eb090c1d925799e873cfb2736a32a0336d29fae6639477834c5f, 0x4911c24fe25995eaee18cd075d0c3708dcd404fcbaa730981c72e7d8820d033b, 0x29a46b9f6b25efe70bc0bb28ad8560117f6a88aeee225d0c57e9a3ea29a6f665, 0x3a9b486b844a0fbefa87b3a6ac031fcfcd5d5da8c9dfa693e217b60b8b1a4f84, 0x3a6ce71c6d148770b65e00594abdc6e7f9080f367f0ab596758240b02fd0c4e0, 0x4f9ccd51b8ce712cf2c9878b112c640adac19240e0aa36238f7f848c52506702, 0x60867e882b96d5f5324647e71850e1759b7fddde43964f874ae3cc48c6fa0b71, 0x6898f0aff3e9f88fdfceb0ecaa012fe7c1d1ab633a517e1fa1095e684e6ccde, 0xcbbe3b4d04906ac66d61be0f74224c7ac9c98b6788d2bef9441c505d1b98705, 0x23307d9f50cd653c981952d3ca5ce454171e7b615633052811b67d6f0f008c2e, 0xebc52973bc03c0b7be8cfaf3cc9cbaa1a4c4289e819c70f7e870b82b075e13a, 0xfa29dbef9aa28f08be7e3016890612cc5458bcd0b2b18e3a94af03142e8a15d, 0x1dd404d0ed4b44dc564fa79447f8b04bd359a421a16f3dbee1504ab8e902f90c, 0x3151613b428e1562d0db72abfb5bc433d21ab4ded798124871f470369a9a5a26, 0x60d3f24248158cf279393cca77071e7ea5ea0d15d8e28462c3e17ec1c953ebd2, 0x1c504cb3c2deac341a970bfbf39b37dd9c68cce14a91423d07dd36892bb68409, 0x2902a36deca6064dd3873695cc6a5bc9d4fd3fb8dcd310ffd7bf0158cdf736db, 0x2a4ce51a695d5ede33675513a8e91cbaa586544281a2a3eea1e80d08685271dc, 0x5f4eea423919d787f625e7bac8a5f0dd2cf93549a0f19b70c5e66a7113aee5dd, 0x4c36d0692d4f325668dd747fb9596e0e47daa2fc2f742afe869f3bfe75d470fe, 0x30db2dbbb42df60dc815679be624dde9f76ff76c74c12f6f309f4150f1b91a78, 0x3bdaa5291c4f631c4d7fd2b5717be6198c35dfc52763881c13f303ef90c0b377, 0x32545e0146e5a0f257d4cc6c71c90770e769e6989df0139a35295ff24f9e2de7, 0x3b0aeb713d8a8e8af6bd980b6016de80a4a4543aeeae8373341a9c44ccc902ed, 0x2411fb09461382add203360a9171f83698e83d43381a70e210d32031955305a8, 0x65d902bad860ac739622056196c27050001a21768ea953321c25908db3ca1ed2, 0x706c2cd0445e63c770073c07b43003cfc87f4b3709a64556570b788207f48325, 0x28118466579c4b7c3ad127daceebf254f91817cf87792ba18ce5307f13646c45, 0x4a3a9dfcef9b243896937a98b68e9e065128337d4d92c1f8f86d4531f7bb6c90, 0x5a064aae5655d7b7bdc5f119f46e3c05159f47dfdbc48edd6324dfc9a6365077, 0x6d4b798d9d6fb8d62e3118fa1dd6ca1a3887e08b3c9e68044156b7c4269d0e0b, 0x5cb526f044e1c05e30dc853a3d741178188bd7ad5b4d77c657dd74db5680e587, 0x4b223a7c7d58fa8b22c34cdca1bf6ff4a4220b54ad6bb926c27cb814262b1633, 0xa5a5b24c7a9d4ce24df3f0ecc1cb14559c5ee20e83bf03ff1d54b4d68fa73d1, 0x5d5033c12e8f0bbe2fa37a2f4e962c736a35aec91cec41423c9eb65d989c1e07, 0x322e8b8ad13042275feddc35a30a5d7875a81b3cf7981f2cc7032fb27d47f75d, 0x32b10bd02879b7b1487535daafb4c88d6f6af5174c58cc0c2abd7c1625a69de8, 0x61ddfa294940560f58e93f2507fcd87d092b3678680a0f0598b4e65eaeb356ac, 0x49935640a1638f55af44818f4b9d327cc8748c2ea4fe61306f4f03c22579daaa, 0x58eb7a5285b7c4f79f5335d83c05ded659f33d32667ed26b3a9c62fa597e9669, 0x5a1890966ee4e6db010c1f6b785c0c06ffe85d6eca79f0d03e4736a34593705b, 0x35d2ee42d0bdcfcaaf24c0eaac83dd5b42f1cc294d887cd92a78471230c0f03c, 0x2f143f114ce0479b3ab4784ef59e049df7ecb76b66e7b7a3bdc13e202657482d, 0x52b603a513ea3fa861c4e14b06b4c5185495f58a6ead636647942adbf726c35e, 0x4ba3f30a447d0420960d517aa625be824ced89fd5ade0f081ef8a8553cf2cf32, 0x5f1fe2b0e086603d481d9cda98e35e479dbebec9f53c526760395e9aa820dbcc, 0x3ce94634f892d08a868c3818084f0bf0e22e60ec51f6b2790d67dd79b6f5df72, 0x249e962a7a7b51ec67bfbb18f97554cf37824f5c7a002aa0be6a3fe6f578402c, 0x5ec9ee4f5c90b1dc6d07ca9d94165eefd613ddbf27f047ebe00e1b3bf77a72c, 0x6b1149da92f76fe2d6ed4adc23559a85448a825b41d95d6464f819bda390fe1a, 0x6bf24477c299775123573f5136a4ca1ec2c25aa098d102edcd780b4dc570df34, 0x6f55e770b06f3ea2325ffc33f90073b3e4785f4231f0998a04a5b19edfe11ff, 0x5a78724cf4e2e3637e2bd1321af0fad8c2a159e7070e0dda978147954fba032f, 0x23422803e2ca329daa6fff696122c8d7fc60e09855134d0517c5461e14f68368, 0x1f3626fef1d31cde3751a5d04fe6e523661de94f05c71e0d52251e1fbfd73d32, 0x5cdf5a3512247fccb2de95b976527d296f6b66023cf5d1df1f984432fe5878b1, 0x3c94b4bea00618f5963de3f7e6060ac3f5dad5228412afd3d0b5d7c7ddf965e9, 0x11a44f47a35c7f048b6a02f6e7f989936d7817ec123983e2c0a31b3f1fa87925, 0x26e7c78ba6a26fe97ad3e3a9f25a98c12bf25754e4a59b6842c01b2f3fefe751, 0x6cb3bd0ea17ce98e676fd1fd6594f52037a679be67781801cb94718195599089, 0x59d2417367865ee59ae0368a5f3463849a5a4863c0457cc75d857a63a576d06f, 0x132101b086e08a9497b0fd6eb52c53f07cc38b51e2f32da05ddefe0f805e2d9, 0x686bb96a15166418e568af5f4697fbbe49bbef759c4954691e5f7fb25c4be82b, 0x4427575a46442fe560a8f985f1164edf4d39ffe74dd13f1704ee990302b6a632, 0x14a6169781550d7fd7e4fbb450655353115a84f2d60febce810c69e905e9ac97, 0x59d2c4b6c85297f7d7b268dc47871154b2aa01cbab07fc92f71463e24b590054, 0x6ebac3901bdf8291cc1e637749190539e669ba791b490d681b0336caa91ad635, 0xa52b0299c97cb5ea9e544ca27969831d98f4ba6027a4e5e5bb5b1621f0c48b5, 0x12ebce30897228282dd52b76bff0e849012026a41141518e63e2228213c0f26c, 0x8a1c265e4aeebb41c91329dc299dc13c8bf9552d6e747b88b9ab476e4784ea, 0x4ec57f720338e84cd9224a4a265fc1fc99fb9c11c2d181245ba2f3bb462efeed, 0x5a4b3c125c409568b95d3b6dc3b36fd5cad6885c60ca55c258475453e6b803fd, 0x48a3075714819b3fdf188d51067da2129283eed9567dc298431efcafa5528e0f, 0x180489ff6bd05ee2da13df5e71ff7d05cb66aadd8a21797a3e5fdc6b9f16183d, 0x70f12c40d09f46f12cf0f53e2984dba8d9a5fafa5cfe3600fb8957aa687bd260, 0x5ec9eef75aadfeec1f7aeb6724c4a5b9bb9986143f6e028bc942a5facb4e1d2d, 0x27932a650009791c52171c5b4bca4468164ed5615f1a1f2648c339b435b188d4, 0xf25eb455baaf1e4143bf02aff23255d6fe9cf5949e0344e68f5a66c2b60c4ce, 0xa8684b170daa5122d76f38fb103a823d70d2a42f5a3d8d34c7bfaf336b5f377, 0x12dfe27c818b4caa5f7b813338104bd29505c1285c54b481e43f867633e7d1dc, 0x6b09843f795330679bd18e684bc049d53ab7b61b8e938d583c235fc0cdc7e9c7, 0xd3221ba3baa777a842fc69cd29d58bb69d1edbb912155b8e4651d85119be06, 0x477e8b0a73901722bdd4b200f59c1fc39c26d0d9faa7b8c0c18e4e6a5fc26489, 0x1f83d484aa23ded5b15d952682bd637417205fbfc8714844a79311f7b827f244, 0x16aefcdc76062ebf6242db167c497bab8562985ce8e6ea65d69cd09351d2d115, 0x165e0d850be19acb5620c79960be2378eff1ce58f81361c6f95a1df34c200246, 0x1a42b4bab95550964390f27bc5a0d338e8d40dba8f70e9c72953f4389fd0742e, 0x65ac1deecfb51a1381879fef21e7fd626a192106c77482570d0675b6194a4647, 0x37c5a66b7403d6a8e0bf5c29854b4736d6b42f4568c4f12c6ed6b7e62dc38243, 0x6b2297e16e5ee1eb0d5f83f430c220524bd1255d07a53fc8b5312c43ac1d46b2, 0x3f6e9a812c200764fd2c364380297dcfac0e1bbb198ffcf7aeb943e3a55415ec, 0xcaa2c10c653ca7790e1530355426b44d9675e61a2749e2b3073bd7a723f6e1, 0x115744da2595f07047574b16a201a12b4f56d57514d03c91520859bd590549c2, 0x56639fabc9c281317d6a9ea9d7237409101345ec7b826d838902d9808661526b, 0x614421249341568bb8c3b16c373a7d9986af888e8cb3cf4346387078dda37943, 0x33ba76525c9ba6a2febf035e338eff0f06ec952c3082d5711f025f0ac8b566fd, 0x47a1f3c72067f9a7b05ce58143cd8d37fcf8402774a7ef35ce9d4cc1b9f953fb, 0x135e7d8fde6abac864fb88175d31e565846cd4f5ac13860efdb0559deba2e73c, 0x5ae4190bc1188ab0712f4720609467443eb6bcd7c55249dccfdd76d1ed62e2b7, 0x66a44426196628fd342822c214f17bffb6136186f80c69328a9df7e6f938bb59, 0x714172dc976c94715aceae967616479fd4711c8d60782cb4d5102525a80948ce, 0x1267b0b11fbdddfbeab139ddfa5100cc67e9707f902d66be11845f7804c8b336, 0xfcaa1a3a58361499d27f486d765f00a101a8afca2d73fcbc18d860d6ee265aa, 0x406581f20f865c7a94bc69ae389864f85b8ce6f5954f45adc6019ef7ae796a0f, 0x1c8809676033e87f2a3e6236be87990682716bd22245fd4c49c7dca391e05a7a, 0x15d07d41b24dc7ef00687d1c9ffdc3209a136d3872acd9051d878f1f05d7bb9e, 0x5e09101be8d38d8dbe42cb225df7953e2f4b0aac8eb95172c4023ea912ec6606, 0x2afd0e3277f5ec402665f62bfb72b778bb04b8c34e00f3b6d3cdd0c5e8e1f26b, 0x70e8f2afeb448342dfa65d28fe0a022560d67e6bef5b31dd226f6f3aa954314b, 0x562079960933ac60df5c5f9128771901fdc2e75b27a326d6c4727e90c9bfb19a, 0x3afd4428a0922e4692b406f041278816c25ee430de2e1f7e5438d0e734930081, 0x703246844b630cbafba4fecab539a8bb1598646666d92377c3bb8235d07d536, 0x1a6f7ff5d9d650dcdafc681020726e58f09cedc5b4c4ae546648ebeb475c2d99, 0xcbbb056baf0c3e65e3212fa16203208fd3c4c239070c9e5a5520e050d44e247, 0x571272d769d56ffe4db7a67d561a17eee645f0809a4a20ca698607faed44375f, 0x37ec550fd77efcb7de96e0c16d8964b6b536fdd7ef756fa3f86c8c0dd5ac0142, 0x56b355dfdab93689d3519e5d27a7fffd452bcf0690ee8882b7bf1660196a945a, 0x1d28ed55a00169391229b26aa568d443786a56cd8c18e582fc2105579fb5036e, 0x467700e043b0287c05818e6ce97bafcfe06da4ff02e9330f90971beaed267f32, 0x30bdd1a9e31435a756a1b8490b12ae8a32ab7c3ee8854563d06f9f1e4cf3649c, 0x72a69ac7c805a5eaab8bb59ee0b528fbe6bd2f014c75cabf504804d263a28eb4, 0x22449009b70e1ac95a3545610244746a9b03dd8a3597eb92576f2401cb2fdf6, 0x5335fdb86715cc2161f0bb42fcdd15336d2891db05f453062cfb0b4ab9b856f2, 0x61307287578d41eecc22eb494a6b6d955761994c7ebc50c5a1cff5bf687e8ee0, 0x33b264106fce050f3c82b1a187651f76c7434bd0b631baadab38fa5495c787dc, 0x37bb22617a9a9d7211439e211202f2b9b07b6ecba49b47f4d12e00ddb361788a, 0xfb78aa663744b2ba2d9bf9cb941f76b0de56702b2b49c79126951f4c4b60956, 0x6eb2f8e9dd220c3138e7845ada928b6a1e0424536762639b4690798765fb0618, 0x3293256291cd0e1f9a7db17c6a741a88b992e614d2a6750e39cea541d29f15f0, 0x32b1ad71be40bc9b4b42c18bd02b1b46cc68842c8f084366af7a0bcce6a4e758, 0x5d1115144125c6add3050282af5e508ef80b9b6195dc7868c37c210881160110, 0x5749b8deed7ab0b242e645aec543d901359f549e49c10a75b5c21dca94066e93, 0x5ce851a7df29c59c580acb68feacf6a1939448f47a956856c71a3a95e1998255, 0x331e059d49ef72e4d598187724b1ce03250e58c55d9fd5d845858154df997889, 0xde1ba23384352c84591fe60ffabd0e5fe1c7a8668256200368b1be21ae28a36, 0x12ca8441af0bb1ada7f9dd5302737b72bbddba81e5b564c6087e4efc2b98af1c, 0x3761da6e70912bc33db26b752254f3063077ec90a689b405171667512250413b, 0x1dd0811e993f565b211fcc8612eff760ee3457161b0d2d522588444fc226e12a, 0x13b0df71c31f8a8afde430a6704bcbd14240a6f3ab9af4b949e9bd1e65658607, 0x1ca54561baf20b68d2d325e547420e27de94c3fb3678337565be91ddd1c1d7cf, 0x6142e02e68af21872716ae112925918758a4f68224d0001c4108a15e4bcae3bb, 0xe75a5a3fa2063813f9ce826e6897b8775ebf0397c2e8be82b79731a094d3f3, 0x20fc8cefd8c7737dee67ffa9145d7ef1cc3be0f106765701329df5a999178ac3, 0x2daebc6e9266ef45b1f5256ed547bf0f5bf72fd66e6ae494e86a4696e85a1eb9, 0x72c8326362c835f0d6d37f497311b252b019fc0ad91173114ca24a4094f8627d, 0x29dec20923d73e1568d17f25bb25e5b65ff157377aba48c5e5faa855905d9fd1, 0xaa73ff64ba8e6a382a200a83c661566c744a2d8a48307fbaa9c84e8fa52211a, 0x16d8db997c5cf64162e4c851d31f616d9cc9016359b911e28945805bf308ceaa, 0x61e8f5d054d7e02a1177fb52a382133287b8a96622cf66fbfab4e9d34bdfc0a3, 0x5c0ae3815e6649f99c9dc6bd307e517fe7629c393f31c87177ee70e4e8f91cee, 0x4cef1eca618aea2cb593c865e9791c29d84f46468c14abcc74b4be2c85758eb0, 0x5884065e75d6396b6aba85867068a2dbaa6549a75f1fa1efc29286d5f80f3802, 0x6adcc88cfc8ed291c3841716c46f20910c918b965b3f24f95f0a58b07aa38de, 0x1b705ee0e4ced0d46376f4c3a92d197a26c674c740935c51b21d2e1ff702eabe, 0x485ed2bccfe79e592bb60e42d71a0400d608c26ff3f5c55bfbc16952303e350e, 0x59f0d5d8d2d9112ee07e11a3230969f3a2a64b3e73732f6747b5fdd5123cd2e5, 0x5ac61a68a0eeba69e6a53314be9b3dfb700ae19ac6abb5f86343fd5a19850ba4, 0x453c6be4d69e9214e4c169e991f9c4f7354003870fbb16c2c77a6c71f62b0469, 0x8f28f928c664b8b48030129d1feb62006912960f397975ba20d6371ac34a8bf, 0x498df2f8e0b397579a89e7985c4275dab0310c05da5c7c9522c5a9655c5c404e, 0x89e6b9cd3a42102c5a02d5bd29be9d771630f2deedcc1069d8ad9a0213acec, 0x4ea837aa11cc84ac4516b8ebed9a30c1d0f2f2d12fa34e5b86842e9c9d6dd5c1, 0x51c2cc16892c257f42cf7962ddaa677ddee0ce238b81f985f37304c57a7e3bb5, 0x163087994dabb795ee0201f53b2e44a5e9c508e12573663972e6027b8c23c5fa, 0x642aba308b92ecf734846f75adf846f0f912425983db65f96f113b3f4fe889b3, 0x4aa0bf0cea270555966f0a37064f6b9f3cf246583bfffc1d4375af3ddd7cb51e, 0x19ce2cb4f510ca030b2e2e238441b717e1b0225e4e9c56f58a1b79a679a78a5a, 0x4bb3e35af1faeeb8c4f3587e7741fb4a87b4b4a1e7e85aa844ff4e5bec10fd5b, 0x17a94f7563e1fb16c2dcf990ea0514791655d759b63f8a30c49bb136e86d716a, 0x709470891ede107fbdcba6b1794a8c1d5635078411e07d1244e8d6f89b97721d, 0x5ac7a70dddfd867174799e2c718e96502cbb4681949d9d1e56862d887e06d610, 0x60408dfcdb019c52d19a6e9b2929dcd32f252db40aa96afdb05099052aa9ee29, 0x14392288612b7b00a81727540971cd110673c485f32dda3e26876fba163d0221, 0x135ebc54e12bb1eaf3435e8c10325d9adbd7f92c89e16532b130bca63719b620, 0x1c91bd304ef999a5676ebbb9068adb31f59e34c6882cc310ecd2f8ac409fdff4, 0x5071921a98c3d0a7c4fb171dfd356f90ecd2ea43b4c56eb2fca66d80135bf11a, 0x6e5e5f53336209ba60f0efba39846f7d81a2a4f585fc4e725b3df63ee5ffd60f, 0x33a0df3791630cdd65d2828709d14039adc9df3ac2f1828326a0cdd44e543592, 0x2461caa61f10b3821f6a86cc105a48abbf970397e96a5ec8e3e2affb8fe8d9dd, 0x483c408953ab9849540622c0bc3030fe8b4445fbea9f1205899eebca68803bf, 0x3292a4dab7be903b614209e47cd6647f89593bb3ab12882d9c11656019fb3c2c, 0x1d380b2ec27933a69deb4aa1370bef119e6684517c3d1f67d0797e6fd76c273d, 0x5196cf508c1ee2985e2d4420e2222bc81f9f6d9ab4df34d36e7a09f6d996724a, 0x49f396f782b8888ce52f462f78b2d885da199e29621df644e2037e34a0e29dc6, 0x42f85a3f8ced0ac9601677013d88e0486bf0f466fcb252907f07a9e6b427d34b, 0x2cd7db7438dd48d6190e13a5e121255249ef8681fb9e7eb9091204a34fbe4bf6, 0x2e5ed61cd7a48c06faec480da6877663bb661041a1ce41dfd5f8a0d88d3850dc, 0x500b281376abde9f0136a67e717d82b1a8874bf4ae002affb93dd613d33df691, 0x196b3dc7cd12e927c61f571fd3a3996d7312e3beb49c8bcbc52e9b82b5d6f9a9, 0x59ad78cfe17c30a1824256186b9436b699f304d60452d10dd63d92b84cf0b76f, 0x49afe6ea8f269434db66837085f4df8ed7c8a046775d5f881b9e04196e677e9a, 0x988165bd29b03e237034e8c2a81349de0bb7da34718d9c440bd970553aaa9a4, 0x17a8a7b5e3ba7f2d5011d8941226733f548cbd4279680482b8ad395de58981b2, 0x197d83f06b8af3872b7b493ea67a2653f5420ded0f9f6a013fd99b195ea7c171, 0x1fb7eea3da4b5b798d07c6f8766f0587f9e01d71d62480ad6f9ab380a319bc85, 0x1298c30014335a0f7f2e51fab012d225536c80f426adbf60903268d74ad0140, 0x1d6086c77608d0824c295f51186e0ec41e1dbffd01873e1b6e8755af6e33b72b, 0x30bbac3f4992632eab37335f461c3ee9a9dc27b8f079a56e3b392fabe617ec0b, 0x60602906dc082ebdb6e4cd6dff114f5038988f1c717a001f453ac920703e91f4, 0x64ea18a051977e5244c7df8480cbda2cac767c476b954f2a2ff69c1601c77015, 0x9c3fc8750d72b52f07bd834bf1aed02ffb68b8ca01a9d60f5d66a20c19f1e65, 0x55361b7f8129264cd7df52d0737cc1d6a64becf1afc045659d1b1b888d2d772, 0x4412f449caaa3302e09934d842803ed877632c33a0ea122e9bc9c0d0c271002d, 0x262331d5b0439fdb05c5dcac0e1585029eff3eda98519a760545030b23b20611, 0x58279da2c3da0d14403a15383b5698ea4e3232fbb2cfa34a263979cdd9d77c9b, 0x3cbd022f16b56978034ff84e1aaa12879fcdd13a211d371f36a01f2884c15206, 0x43e61424cbe4bac4ffa30d839f9a76647aed9627de587f8e3ca135bacaded3e4, 0x6e86a698a411afb5663ccb995649373f5227884dca0398030a99a8f4982e3327, 0x36ad2652e6674c848fbb99ae5cbffae4da25cadca6d2e356bd7e8cce398a34da, 0x5bf8bd78fae078804d6b71acce77563932e9f9b20079bf7b2c054939172752a0, 0x7310f3091613d1773a26253f8126e86011fe62634045b75a6df65c0cb1c2d613, 0x37223c148904a4fca56dfa192e2741498f2a9b49cc1ae0ce5d268e9b3d04af90, 0x4e2c6b932264093c7d5aaebf59936ea019f2dc77ad6cd93de3e4bca8c70648fe, 0x501189243fa609baed76ab41cb4f58b759f19e43b6cb5421b6aed161b90ac78b, 0x16975bd0340a928ca974a3d14711a152646c4e2eb89e688d62a317a11f152a47, 0x2d50b205fcd46c4b18276ba8e8a144ca113e82b44dbb1f166e14d7569c159a16, 0x2a9cad6cd8236b0bd326868250a721162120eb6af06e18ca9e9cf97f44b94914, 0x424840241d92124a5a6c1b023c6ecd37f490cfd00fbe4e52d5f1092fd0746075, 0x1500e10c35e0ee7dda58e2d7d86f84a3957ff3b58539e8025b35b7a7e4e6444a, 0x3e56ae007457dbb46722e360a2e87722cd09063cc9a239f186799a444469e09c, 0xed2f7b2ef38f8a24004eddac4a88ff8716c6d55b3bf7ab02a5281c58adafacb, 0x734238937812d6eb4ac908fe40953684f02d55d2aeaaf30162eb1ee81ad2edd4, 0x6cb2240c6a40dc862700c1b9264a6fa8e9d1c2225a544ab34f8687519d47032d, 0x4cb38ad957a7de477c3ccef0131dfd4af46676e5f0bea7eb95e4f63e24dcbda5, 0x3188352c2233f9742d9cf23453d5deab0a1288ce766bc547d40e4e057341693c, 0x6446384005697d23fe92c8d2220f1cd262a136408434aeea7bd18505b60f9f97, 0x191f803749fb568c55f9a983ddb72e6a14b0c41e8eee673a9b7373c24d7ca3b4, 0x3fbc36c1ed49398986f87dd0cf35fee144483eeaed16c031f925d8d7d469b81b, 0x64837bc5650c1a783c1f9371168edde0c17ec54c78b8d348687a691bd8efcd8f, 0x65fa8cd772d28182e96d60e5ff3c1e28958c5a9acd5f939f50215525430e188e, 0x48eebd6f9f0c5bf82cbbbd094264e55f60758680e9267dfb5fbd1149b4096a52],
    M = [0x2e319b1ba1493a8bcf8c02329d1cdb3b98679f5edc00f5038bd9a3429527d0a2, 0x34ca62e0f242c6225ddce810db393ea6d99b22bcde633b40dd9fdc1b15f70c9e, 0x4e83a06241c4f6f82405063deee15da44bd9cd81b7075d7976c14953e38aeaf0, 0x32aa1d595e54c951ad99db7f7ebcac7213ec39c18a8bd2549f878027c2f103f9, 0x6733fe306e0cae2c007925a992a324524b0f43582b56c561343385e234acd60a, 0x18a80d880ee4161cba3617e5e594b75d6cc65a90132506c7998727085ef9de92, 0x63ac5c59cecd1666221c575245c4a58d8c1db0a9dbe4420df08bb046c5db5023, 0x2a13e440e9dab76f91163119485a0bae42c9120c3937454f9c36d59949ec31bd, 0x141593854a2753e7b5a5aabdcb019ec9d1ee5180e0fd78c69aeafd2ea9c5a776, 0x6a9fc6815e7e3ae3b4f788a2cbd4d56d800a617441da7f69ba4bf8c6fed346c9, 0x636651214762bc0a23b9cc662a54b4df2fe507760e0e3a175fbd8316ce862c0c, 0xcbec87286ea2cfbf486fc644f376849e63e901b80d8e3da05f75cc998f35dfd, 0x38cd8e362aa787d0e93917578972b4d040fb987a63749af09e73f7f9cc68d098, 0x2ad26db0853ea5d9122ac8154716002cf90e14c75c48e2341ada290340cd38e5, 0x15d533d071f7ca07214f4aeab6cf7ebdd37821e09f582278a8b5312b953cebc0, 0x101556034ba03bb622ce5ec00093308b99fd1e19a4a8cd6dd0a4ff326c333c04, 0x390a91878544e3d6d799473593ce2b4d3df4e9ef4a8ca71489edbb548f320f3a, 0xd026dcff1d4b07742abb9294b1f058a4e5ac6273e7725ef066d7bd309035b0f, 0x3aacead7b3414711bae5f0781436e2ecfd84f56ca5f1a341e8fbc663959719ab, 0x151250c4fceef0c7305bc7883ab82701da57d92f893a45b494eef9cb673bb728, 0x98c4f38f5828cead3971d75802d8be2a53c23317dc70e50eb4a567b7fe63570, 0x728adde6f1baa27e08442a858084002ed99ff30c04a81d839c3af3c6feea9929, 0x889455e78071c389fe244bf5cc139671a216381fbbcc5438cff57797bcda5ea, 0x2e1e206e4cf3d31a830bb292d0b693e99a4e1fea0c6ffced5d690260a3fe187d, 0x4392a541537ea3994adab0396f7a67a4caec3caaa0050efe66c9865edda623ef, 0x3845adf8aec6f359d7335eaa972bee9a265c7d7ffe0ac67767b7ec67089ef0c1, 0x5a9412eb07a5077678db8b0280bdeba6dc91b6cc63a1ef3193e60ccdd1244b97, 0x33e3a282c1a11f125fda7f8e2ad3df13c0a658a638dafaba43e3abc02c3ec095, 0x19569932071331ba6d4d1332ca6b2c6ed0e75f40173625d5772857b71d309820, 0x5be2832097b536e58721b6ded75b64ce9984e6756aa470c733099a8aae92893f, 0x680fe7e4dbcebd51fa2de03376837e060ec7a74ff5c88749f9a3b8db885b2562, 0x362435dc91e74f4feaa4ab5f837a877a42efe1ddef704ddce0b121191ee18d67, 0x833e6ae3e3c602b67992e19b8102f74c51502b1b0fe07400cea3ca5bdd31618, 0x7019bc53c07cfa6a4b9eabadc58aa8f65f3026506e422cb65a51ef0ec3c3b63a, 0x482767ede285a910ced2a881180d48246f50cf626303c1fa485bcbbfb2fd9933, 0x194b379e61f77808fc41c6f3ef4af709217855246963f7bd6ce139f12acf389e, 0x50155387bb308e003f867294812e7d6b2ad106c09757559debdfb56bd9a72bdc, 0x57aa4c6b8144a0556c2089cc99da3bed296cc8d8c2c05364094112c4c88a1d23, 0x37b18f48c3f5a9081520f7d7ac3e7c1451c779ba3426b4580a7f3e27447c017b, 0x3d42102da5e317d19321e8ad579e80b0573f666a4c7dd93d520f9ca8ec5602ec, 0x5d4c279b8fa145d5b2df5d78ee31818ab3ebe3e23eba5eedf5c5a122bed0930f, 0x68aa6d1902387b7f8b7890b52b1b1994e5351ee2affece25a0de747413c93345, 0x3293cc008e8f04628c959a2b38c54899bbdfe06353efeffda621aaabec7a90ba, 0x9fa079747fa6a09457b171be9db042d3449b1d616211c01642ca944f2c0ae3a, 0x18d8e8522b8d563998d9459da3631ffa4c659f11a69cb421f7f661785bc69f44, 0x3f3bdc91fe66e2928dac3b989aeb667157f18d0eb1faa60665a760e08d567c71, 0x2b67ab820bcdf86a3607d36864cb7a283bc7f478e18f4a7803feb46dfa5f17c2, 0x4bb60fd77ccc0da7c4faf3e257c205041e7a355ad6f59cc849431943f5f2017e, 0x2945dbf238bc4e24db5f4c715abee03cf1821a68a6f032c98122f3c149170773, 0x5b83ec755e370b36a286c83a4910429bdff43ba6e5de721f438ae09e1cdbe431, 0x6261d6bfbd1856069aa9117e0192e2621a12a6de703e60e47b9ee00b96429e54, 0x55146d92ab39bc5041ff234a5a8ae88d2e28f2fc6f17aded38b008b2f42af1da, 0x43261db69678d13849a36c48c50f98175c2191a27cc510a531f1f022f22d3c0a, 0x1c0c0b69210e03bd5d70802b76c506e6ad47ec11ef579d1d333d1556bc2a4ade, 0x4fdae711f7db6327efedfdb3068766a17dc96b039febcc034b573950e42424e2, 0x6b8d16e157888a0faafb5518abafdbc1022dcd273fdde4f7f450a99cfc5f8667, 0x903b130bff09e06dd509cf9ebc2d600bacb3391a7f6750ebea8dfcf62d7805f, 0x1a106a403bbbae29b6e85268934238b410e74ed3076eaf6cde89234a5c1c9d97, 0x334e1b1bf2bb0e742a502c50d8cdfc6b37cef7f73dc3443ed4058950fb063477, 0xc3751f9b2448abbca690aa57a80eab00ecad37ce17b23f5250c9c3633306802, 0x4d7019bfab8fac92b913d13309dfcc9d7e43707d1a19fe3b4928ad1481643518, 0x66a8fe0bf0112ebb95d4da71d3ce9148acad27d5488616b29755d39da32dad88, 0x483b4b8d5ca15a622667f2f4bc7a795a96ef6f72d78245b81416c8d46e401319, 0x413d73f320655e1df223a94ca3e870945511de2e617043e6d998fe772dd59517, 0x1f4ee4228f1f980593358f581bf4c0c70553435caaa07b2ca60d79adb91561ab, 0x64ad6894ebec4049e5e8228e10edf1f4ae6167e325528b696b9ef8354e680693, 0x5ec99411d2ec7fe80e594d88f22f33edf02c56c233b3cd664f6e9965bfebb2dd, 0x249fd938ee7a760994e30727a690273301477df3f4c80582e870fe5479e7244f, 0x39d7a3bd1e7f228819d28e3466552d53c620dd28000c796ae63fc982b8c55bff, 0x5db10a77a82e89e93683ffa32f7800bd4bd36cc453dacf177160b6e2fec433c, 0xa00d9dbaf4ef3cdd489823f921ebd1a1156dc0dbeadce4b38e4c3369e61d98d, 0x261d0f56c593674f30ac38b86430a77254a56f51c37d38a570e4f36d4d354bd6, 0xd6abf7aa14ec6d705e312a194954640b74482a484d3e3a6a0f7ba12e04eaeba, 0x33bd9c7814a21f9bb71170af929dfb7ab28f8708e50f5e3a38184a4e3a7934ca, 0x58886c41066860e4bc2a862ba6ec0fb04074584e6dc1c5c962ef7c95a22ef137, 0x161621bd69a8c66b89ac5e2c05546b6c5db8cafd9b9152aa4d903ed0fc4b6107, 0x6b3bb81dbf05c94f3d4ae8547ff27c8fa80fead412b103118b59df6d84d68047, 0x57ebd04d3fb83170e8bd4a5d55bd66722e486d84d599c28c5d1119f713675b0f, 0x6b6911df70926cd3700c094935faf0acc353f6c6383055569005c17061db10d6, 0x576554b091ad6621a96c473dee690e5b0bcaa91819561115e24c5bfb7bf63673, 0x67af0ad8e301e7a56444162f2ca6c3b09e9a1458c5e6d7ba8c01c37e1de31d3b, 0x4914115491a5ab3bceb7565efcf6c78adfe37c56bea8fe8cdd50d74fda4790d3, 0x7cb0ff9fba79ce6ea78e5b20276819e9260ed105028b4875df6b05f41dd2be6, 0x3d88d8f9e12b080dab70e4687a67734eaaf79931f3a38bef054d7cbab009babd, 0x4ee97022b03d6cbcf0075b8d4baa9af3856b0889bdcd1441cc200de6d1488cca, 0x6673fecadf68179b74792f68a3c5b35fea3c3b2f31f99ad5c20b9c1a156c6eac, 0x431d2b0d7e8d047bcee6112f0c641aa73bbfbd1889ea9ef5de7d77341a71d72d, 0x6592c2e67c9365fdbb8e81a7226ca43ca15a9ab9e25047a1af3ebec1d12ecfbe, 0x15b57ba59f47e8a46760af077157fc8bf822bc157284dfe7f2d1790121622d2e, 0xcf064cfdcc95d2d66f63ddc5b5cd37182f8cd9c04a9b78149f16c21c4350029, 0x341dff90d99d22b20162e48c4471f72a4644455c8f34db59b84c268acb6fa382, 0x458c6c10a01d73a328e52ecef9de658e0ef058bc7460bc0ee85e6ad912ed8a3, 0x5b2de9b628d308688294ca07a58741e0bc3a6f2a592ea9bbe19db428b18a707e, 0x59cdf14f23edf95b8add23a6afa146e92b49e837c74901678ac6d3e791c138e3, 0x2d0a210cdf6c95ff0ed7d383863dbae24d615ab17f6f5e36e00d88451900a5a7, 0x17b50c44f042351587ded5463db609e5661ca2d9c020c07329f77a1ec69375b5, 0x526dd2ea2f2253dc5bb2ec273fdb536be1a07b37cf610a589b3df7520f041a63, 0x5d2d736e917621e7a391f0e0244e84ad9091790fc8b010921ac466255d319ee6, 0x5bd6d601adc65f0d8bbe509af6df39f198bb5d69b010cceb8152894409572c80, 0x24a8000e3eb795ae74f3e6409d95d01407c9411f40aad8d9e87d4647561ba9b8, 0x8c415ad6fb0f80d69f8c015881bea1fb5dab1f6502674821734f0d735769329, 0x58714c717cbce67aa59d003ad8b4458602c7cdd2dea3110d64f370d252a4eac6, 0x3f258e92d07deb6a90d77c924b2f5aa6425fa05016840b33e5487652c26bf835, 0x5e330b87dfc9891758a79d0947119617bb933ae6f0c90b5115f7cf514354496f, 0x5c91a3b297a9fe4999ee5290d7734df2445548306dd6720ff1d5ca3422190786, 0x199a89005bc741bde1d8df9d844839d0f244659e51978ec9214a3c9f99ca8ccc, 0x207814075123f51c26fc24181e8e0ca34f32ca341239b43ad563c61b56fc3783, 0x49e982ce0590ed76513ab5fd92e3e40b35b9a8a69a7dd835c36168be6194df08, 0x904e2a526d68877e3b1e29d5167c4dabad2208407c35bf8ea074454f9f1715b, 0x6b92f896269802bd801234b43f0ce1abfe64de6a7629eff7b50f0e4d566c2ca1, 0x27da1df2105422e06bc3eef53ae7a58c9b216b5cc49be24a28cc2193c2039a94, 0x1585130bf287ff11fd9da7acc5b291328e0969314ef7f7f6b0ffa6ff5b5b1d5a, 0xdf1ce9d12881ee6fb484b68a094ccba5e84c126eaa76e27e2525f82443a9c03, 0x70bdd7c886aa262a21365234685ce1680ee5f246b9d30846e78e63be4f827eb1, 0x5df7b322f29c35b211745c919290e3c305e92df5f59794e6da703d97b21080b3, 0x59c7eb1a0c5fcbb0855c4ef432ab25b27e4ed6c534474ca4d455e0d2019bec54, 0x7238d9e76c781b67425fbac32ca5128099ac0d5c2c800ce9e1ec5c9d380747e, 0x24fb436c11b4d9716f093b94d16d87d569ce394729f29df89b46d23a72e971d4, 0x3ba579e71fee0ac46ac99fb4aa47b1b3ad535b9ad3a8d39d6af9e81a3fa49b42, 0x6a46781fbbe12cef401442af081964452058548c59e3888852769b4bfec18688, 0x36a4381b2275d4ef28362aa5df5f8d6fb6539715691418b996ed160af5f92785, 0x48206006c6466476d9122ff27758bc5e6122a874e87b6d36a17f6785f75fb924, 0x1750ef07603cc97670f6cc7d45ef8251bc01a48f1ce162d1a70e09cffb61d97, 0x1a1792cf9355a672c447ac30ab403b14e7913c874395fb89fcb5fff441de10dd, 0x2b964a38643bad28c7aa8c297d2e0820e44c0010563c2cee804de32f3f04ab9e, 0x1d157297753053fa21f4186758ef612cc06a6a3b915d49485bde11b9303f79fd, 0x12df0314402a8190c37d2199ebaf6f31ef58bce65bb1e428cf378fa4094f1baf, 0x64cadbbef3da8e2beb88dae062ebced005251063b5cb9966ab755401fcee9053, 0x57dc2e196f4a2cd88eff06ff87930d2a991a94e32308852ef4a74d66591c5182, 0x3cd6fb0b28be1c51f2c8d85994fc087a9a324cb7356bc43890fc9006c291525e, 0x702f05dd3c2bb9cfeaac7dbabe002310ea973758f61098c5a387a14c4c16a67, 0x45934e75669a9edec23528d2483fae9f92efe92d84d431a82e62218093531604, 0x26a1dc1ff74880247354250af3e9a1d1f2c5b30ef4d169810af64add9da08d4d, 0x2b9aad9ac398362c7bc9683d637f27c09fd97d5a5136dbcba71b85217947ee79, 0x3103855afc083d5ae3350998ad397fc5ef9d5f28dc0bb07a73c509eb4997d1a1, 0x1d1278a29fc88c62881221639c02fe67f63a47a07ef7ead4c4bd877c0d57f5ac, 0x48faeeb56fc840811a50e22d81ae6cd4315ac94855b25cfd0bb818a8fb34164a, 0x1417c4caa5c797f50a6f468a2e51038a449976149d556717c031542396f13bc0, 0x165bdafc69e1759c892c7f3602fe76f3d46217d14b583898938a734e794da3eb, 0x5db6f791a698bcd6a0029a5b8898dabd46780ffc73e09f8517fbd9f28595313e, 0x4ddb650a988c9da87eadfe0e0d16a87fe8bae6f456587d34696a85569767a983, 0x32cc7a4e492a5b195099d545b5414633585cc3c228bd6244494f5a46f8cc9371, 0x6b9d2f876e39e0dcfb06c4c3891a77bd17fa29aec6a285c2f801d0ec4e789016, 0x3cb0283b79e2a5e3dc4176efd2dd9e5eb763c613decd6bca725c6deef6409d91, 0x1c11fc9d6d2b5c6d59f943733f858ce50e1997b16f37e3dffe628304a6b3dabd, 0x25f55bb494ef834077bda6ac2f62ee3522c9cac8ee53eecdba1ff163005de414, 0x37440fc911171fe905bced74fd2498f3597b9a69b615b9fb64373cb489eb21df, 0x3c2c7324d44fbb89b1cd0a61e084c2cb62bea427bf8db98444e123c1470ce9e9, 0x5d0c7df55ebb136d6b2b59db4c6ca5554390489024a4ae081b9239d105d52438, 0x394c1b9f54dd6c217ba174588438929f07c8840cedc9c07769c8254d91eec4f7, 0x2f16166047dbbd821529254c4d5d86fc6b29b16f730c0fee346109152f879727, 0x37c5b36955d623ca87517ca861fe8ec854968d9f8e02109c7d301f8c66c0f15e, 0x1ed84d8f5ac56a3ea44b69d587b750465c7a1f2a90517206c954efd4b248dd1c, 0x3339c25fe9a9b71a3ea087d8cdd1a435ec42c3daf6ca871360c1934c6b367d07, 0x3983969a2b773d2a7f070f75b1689d7c91ecaeed19697e14973adf52518e9fc0, 0x6f316668a6404cbab089f3d4ae3752424692b8019f06f58f6b598c7d23a2e9dc, 0x6241dc09cb6598dcd150d2343275c763ff5ed22c6d3f3b6d25b2a2308278b28e, 0x15c852601b613b15608e26b70d2ecd4474194b0d512529c073badf1cb0a5806e, 0xb96655fcd5f1f8cdbf07a4e6e9a6cc4b959489e225a8d4ee030e81ed6bc5504, 0x1da00b0f16a195983917c56ebb8e7310e06f1086e7e2827b5a738bc71b686f89, 0x39ee5b8eb61be0b47c6655780857643d2eaa322e62361f21b96af3f701c0d1f0, 0x4c70683d6566576c71efa1e3d6319cad242a43f16a1441ed66f2b0e87b960264, 0x6f86e73a2051007a622c70596f03b2c7acc0b5f09c50eda2c550c9ba1281d4f5, 0x5bd963a41b33e946c4d30d879547c7bf59ec33034d7cb280652d53d775a26dc0, 0x4241b6864aaa14015c03fcece813ae14809b796cd1e7c55df741bbd9c59c6651, 0x6943e0d3cd0c036590293eaf99b4b1122bc21d5ae548424d56b94f380d927c9d, 0x5ca6b2da34bce8a8780050ce2a8af20841de6a7a2b3f0a2a3325cdaeb07b0212, 0x165cafb7580dfe6840238ded17f76bbc95b87ab6b8d7362ddb108e84ddfd4f83, 0x21aec03e299f6dd9d326180678b4c92b7bcb869404aea564f5a1dd1cfc370f8]).* from "../poseidon"
}
