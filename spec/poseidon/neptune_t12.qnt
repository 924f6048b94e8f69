// generated by tools/gen_poseidon.py
module neptune_t12 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 12, RP = 57, IDX = 1,
    C = [0x1f6c9576e648b5047399bfc5f38902e0d506f18e0f3ab77de6de096bd089bce4, 0x6deba7028df3debd71993e243a5a74768fdf04db7ede8b2258be924c8f08ca9, 0x590cd6c13291cdfa85d9c68dc29a5aa033c58fd1f901e450cc6c5e5dfb02ac09, 0x619e46fb29650ad545257a6652290a7d00398db2eb7b8cc2cfdbed41393f966b, 0x3ebc7655a91e0f98858d55d9bd69a18cef469b161ba1c214faa25f7b5b593c29, 0x4578649601736ca363bc92f8278356805b4caf5c564998a3586f16a549a903bd, 0x39fbc6b8ba491f191eccaf76382c1cfbc149dfa6888142236f831a4745fb2ed3, 0x40938cb396f4fe5cfabb211216bad7aeeabc8a06aaeb9461b475784c2c9cf575, 0x29f5ff568dda65c1914583c6033f082a427280e894a3358a887bd27d44c1035a, 0x726769e482a2004b3574e5672606240ab7df9964a31e939e8d3ee6554c313cf, 0x5362d6f5b11156e09807a07166ce7bd2f2a2a0b7281d7df805dde41569bb2ac4, 0x5791c207a19801c22aab947ef0d3aa6406778d9ded705381b767b36045f9a62d, 0x17bfc524b0456d181f3720e161b7b3b217c14992b012359f22ba997aa3a6821a, 0x5adea317ad8a197bc0b45431c270d4f258a0863130e2d56c7e0123553e87a747, 0x6eb83736de5a74aa810d33a5ece5b788e692ad3e23ddbfd95b208b31b130ee1b, 0x14323f6f576f2776c1192d9bf0eb4105b4433548f9cd467a0d500c81677f72b7, 0x3ffecbe4a10e084546ac8517cddb937b24ccea5887432331b44b8867c1228d88, 0x2ed167f0759d8d53b6f93a868a724cfc959f8063e597641e47b12a80751ce745, 0x3b6da1b09418a1c06f38966b44c64fa37ab033bca10540947c139700460bb407, 0x2f0c0aa46092b7f647acfc05ba03f4817ad73fc9b9d227486e26d0b3ced2f995, 0x43620cbaa70105bbc071dcb3f700c4837926415f3eadb2d12823313581a38304, 0x5dd9c58a51b4899321037ace56f7e307ca8d8f56391e080d46ad3ef4be67e0bf, 0x709d533917171d392ac693d0447b06bce52e1f85e77f4e5c9601ad6713fe4973, 0x1f14d54d32c4111e56a7e245c9e9bdeb19bb0d77645f858a81bdee32fd2f2b30, 0x34ea752e34ed0a1c31c527f3b1cf83ea5c59a40639e23278077f82ca19562186, 0x4b509ef73117443c9c2283fc396b5ee7926905e339fba4188210d3e14c3ab8f8, 0x1759138bcf755477ea2fe5049bcf7e5224ad4cd29c4e2ce11e81b3fd7ac7b014, 0x457d3988b05fd14f8f2decf7a379ed7cb338b8b7f806abe6df3baeb111d84547, 0x736461161d95a8ade7f404a6c8479b1185b89744024a860c6ac5a47fcaef72ac, 0x53bd0c7b1059448e76b1f6cea007624f504db3229188823b045fbb7e78898e61, 0x1f8ca2126440f5bcf9cce8884203a97df6549716e23cc99b2a9b9026df8294f9, 0x1bade0fdc26cc20de06508e502ce2cbc0417e0938fd99a03ab20f2684f1d0404, 0x687a605994e3b416b5d5459de59fad6758520c849cf42cbb5848dc4c00fd5aee, 0x5883cd4a34d642f33dcd8d738a173b8cce918175303db8e9edcdeb72e196e549, 0x24e3cad2c1fcb69cb86499b688a8489c95bbb211f6689204a0734e400d5818e4, 0x46942941251bcc1ea6f1451824b9835cb1862f28c660a9cacce2648819fe2f1a, 0x116d92f100c77e493c0989f8ab959ce26e42e3b82c1fa605d54839ddef9dd054, 0x326c5f93e13b52082fd54290aaea971544dbb9db2829d79ab473d3d017b7f9ad, 0x2f50b9bd7a11cc478995f86f971bb4281473dcef88b048335702fcc26f23310a, 0x70d7ba410c7d6a50184e93b7fe0fae22776fbed4823c222b53eee98d23d0d54b, 0x5ef649c2645e5197f7dd6f5ce248e74ef06f3854778463e9f555d806e8e0ddb8, 0x3793751f3f55eae88efae7253904a7663dd650245e848b6f15006ef8105ca0ec, 0x44f0be588ea67b280b5b15f369ebc23ba295a9ec2f7fc53f73c717bd6485a0a0, 0x69ce058562d9d50ffb254e55c710c17db503a31c7fcacf69edfbbc1f7c7af6da, 0x280ed0c0565098c5d0b18ae4e877ada5233e9e42a4b929d5de8029f90f8b7e9e, 0x2c772f620af8fe1b7d7bc88c5df76e1e5fb0a18650a180528daf51521a0e1d35, 0x5a227c5a3afa8fe1b9f56e7db73f3eea589cbc2f04d67e6cf4be0e5fb8dd8a3b, 0x1f73e44a007efcfa37aebb9550455f7b8613701e0398e6d2da5d09280820949e, 0x49d4c63436ac5b4141055644e38e9b28d1a1fe6714b83b69fcb5cdd33c5de516, 0x2622ee535c8ce6369d1b1854ca1444e82867b5af51dc7cf91d9b01932be708b5, 0x64c7ee2c56d971fd1a72dab4ed7df80a11811dc49656aab151018259d3bcee8c, 0x5dad7155b2bed3c6faa826aaf0fb620705dfea6e717c2d922b8914aebd10c81f, 0x3f3d66abddf860e3f7a666c3f6642e570bf8bbddb7d9c8efb27212ef2af4cd4a, 0x46ff6a3c0de23ada320eed1b064ffa1010f7da8b60ef66c1328549d0f204c768, 0x144d2776bb8f5566a1a248ccf13deee142224850624ecd67f7d7328aa763dd1f, 0x176dd99d8814776ce9d475e2437f0058b354e229cc505caea88ecfa0b86c3386, 0x16a7fabd0e4c6c78f3c6b0cd5fd0a560b4ba22a718eb4ea1ee389e761fb4fe8b, 0x4ee99cac1459867ff47c1459579e5d17db15ce584d9b1a4c946fb30afcc4a323, 0x32d02e65bfd5ffc7816d98970722e5faa238d1f451ec7ed879d43de555dcddcc, 0x2497154e20dce7fb973a461f9c03ad91572301e6d0fc31836b70b99234464fc6, 0x59af0b5a65f5a2b01be4539e2c7485d265d2dcc525d13bda9afecfce04cbcfcb, 0x11673d5aaf1104a60aed9db216c2f271ea7e1f9b7a92dfb3a4d6681f1b767a40, 0x19260f1f79e31d46bc2b40b6ffb0eba7d89b0d8788a37a7b2339b151f7c6392f, 0x23d07e55236427acbd7e213df496d53c8f3b0329ff5e91dd4f116011068f4a90, 0x512892e4570238f120b2ca1b4f993890de0588a353761decfb954c89c9a59000, 0x6273ddd33833bbb6cefe0066461de9b813964c3c395f0785bca9d38d452d7042, 0x16328deddf2629d86aab5a74d3ce3b129df767c8a1201283a79a0ebecc316b0e, 0x334d509d9bafb814cdacd1d086519461657a94ca39cff3fad1125c08b862970a, 0x6cdcfcceea58ec77d9bbbe9200ceb5001f9732b0f3fa2fbc650c1d53922f9226, 0x48f5aaa46f5467d6d0a8e2d0ff19b87c6dd0fcb4567fb077dfb2d3da492f288a, 0x675f056ba41d051e5778f1b989bcfc97e0c94eaea5b897a3bcdd77cfa1438d7f, 0x3cea31b9bb1f877ca343dc5ead374fcab7cd25fb43e23e52e5569b4a773b82e, 0x6e2eb5bef8927e269aac7dd4b8108097abd16e54ff979f675b1dfe941380ef05, 0x559adb0a33782d3c07e29c56cdfa21bff65e335f0f734489014cf5d8f6f1db5e, 0x18a546ff6e42bdb469130c19d6587ac669af4cb061543d34eb77fbeed0b8ca83, 0x2fd010fef4a4a212b53e0cd76c53da8b59bd4c21ca1671186a75fa2d907d9dba, 0xc61287f2b708aefdb3418110898bcefe6d51927a844560c52e6f87c8ed1c174, 0x204697bdfa8ad805143ed4d5d20df4b6ebac75bdcce062100b11ccae9b23da34, 0x5a7d6f04c07fed034d7bfa4c8aa987a076e5e544f3002185bcc1c7ee64ca45b0, 0x679f2d940ed3b0d3f010711ed757a6292556d992203b7a19e715e423cfd526c1, 0x8133bcc445dbe71433f0ec94235fbfeda3f4e21ec1694082ad7289ba5841392, 0x3bb7f69f1beb88fd938d3443bdde41e76b9a43c78d9d85fe47008521f2461bd6, 0x3a623589e031365a45cf875a50f44046fe3e27707996aa80c62b1e3a2dcac3c7, 0x111aa1d53d4eef8ea27bcc31dae0f6e0b06ec811b34668656cfe344aa038b457, 0x3e0adffc46eea0d4daba97fd2ee7369ad97c78b3b6e166f379127b49f7152572, 0x25316aa602bce2fbeb1cf0c58e4e1f23e199bef18133013d625410a818f13ea8, 0x4bcc2ce00cc76599df6b1e1212ec79db42b06ddb3f9474d9f6b5654aaef0c7d4, 0x72f536432c292c84f45efd3d7a703aa87026dc5622d7c941af90cf8ca8a3aeb4, 0x5b2608b51f68102cbbce1fc23fd742dd9d45ea02516430e2a7ab28c5de782cde, 0x3e71e6345f0edbe20b2d43fc9530160077b44c3d08904100431d46ba3b88f518, 0x665e122a28cb4f0daf94689cf2ee96df7f9541390cd3b8b111d6440cce65a9a8, 0x3891d2494e9ef8f195186559a0f7fbfb0ba760690278e035dabe66e74d8120d7, 0x5dd1374d4e69177039ddb6609b512181f86a3cbbdb37d23a0ecea724920535ac, 0x240ee002d3d699842d4d475e8c08f61887faa94b365ee9a834afaa5882459fff, 0x4e3832a65f3dc1aec40d2dd2ccbce08df1c36f0b589f5fd1af67a915038ac525, 0x5140b59c3f361f1c7e6e86dad45decafbfeb548603436fbafe54a9cad23161a2, 0x44c7e5ae2afefb79a37775c406ebc2b07d573949af376e7b60afb0ac8b2d280, 0x5ae10d51cc0d273119df79f11d9c1cb4be466d66ac6d22e6a45ac92a20bd856, 0x48af9b5f2e5055d2a177846f59efba0b11eb53db23c1b580d2c43ef280026366, 0x2cf892b6cf7652dce94a00dfe62ed9089353a30632ea947a669b68c9f1bd237c, 0x1ebcb2872fd1e23e13971a89bd4906204538cb1512fe1ac4c02895191875ea7e, 0x421fd5d3f7550f8140926a3306037def617bc4f8dd8b8dcce82579d210ca9cff, 0x3ad3a5167e56d93c0ba04ddaf8d526e1368337d3163bdd096c45c9893cef6ee7, 0x229f8289a2d786b551bb052eed19dc8ab9ae7c1f009391f73a3a92a201cdd422, 0x1d7101a7bf3c875cd8fed6318cf3023337921567f613d58855259105b121f4dc, 0x5f9e2029a5a5b4cba3c77fa005a6e1c53bb9f2ac0d27f1d8d37bf2f21fb3066f, 0x60fe4511504e74d9c831d5b0931137087f019f26ad485238f0353110a137c0b, 0x2bb7d3de260fe12cbf4120db993bd4fcfcc231f06682e8eb3da01f467114bc41, 0x48c2c4898a1fa368aefdca7eb1c9b93956cc5c0d9a810a7a1f34626883590fa4, 0x6d73741ed0b277fed239d4b5856542c1142291448dab85dcccb36b0a6477b392, 0x5a0480cd8c91ade83e73a02c0c8f6b8da80b448c6280ef32190b303b615b071, 0x475569b8cd6506103e6946caae0f33293221514b0907363578e06678fbfae7ba, 0x5bcf1bcba664c65845e206251ad33822204fe4082e590b9dfb4ab25b7beb4d8b, 0x6ba887396359115b5beec45a959a4068b3f7e8e6801f3ddaaea2728ff9db33ea, 0x10c2ea05393563cbced178579bef4878fcccab19a60555ec9520a6653b16ba16, 0x81a5648d101563f4a4ad697745cb9f1dab39d7355ba651c448f33f013710192, 0x72054f99cab4c835ac8e87408e57901643159f0b364cf0e010bd8b3da87d861e, 0x229a876a8e9f7b9982a2d51de46458fe1815d9f6a1ef0569e624841303e2951d, 0x6cd182f0e5dff10581c09b28ec81c5e9d93d330e9b09301df102e9b2d3acfa03, 0x9e8fac15379c0736ac104ab93f4ce2f5a3532af92d7c41a1b3f4e5242e5bd5, 0x36cbebe8cbec19ddf80e9663442320e89ab21ad14d0fb3d56f881fde85c79b16, 0x4cc202d2745754d58c58fb6954aa083d70a9946ea951855eb913ef10a49dad22, 0x6a40190db540e01d7fa2ae4575e2183c2bcdc2137db0dff7e15cf81273c8e299, 0x305effddaa96694c6cc8097762d5bbe6fdd49e4e22f37d74e7697679ffc300a3, 0x78a73f826a8a1b59bab72229cbd90d01c780686fdf2f31c6f6fd9d4726092a4, 0x32021f054a1538b8241bb53c82ab2c1e3f70c47ecfd6a633102f38564feab01a, 0x730641a93ccbee7a0605cc4fa0ee7c9d891b0ddcc8063f75866894d9cc361af1, 0x51fee459648e371a8c86a3e92ea7a99ec7794b70fb0d1035882b1895ae22c919, 0x5d1aecd3eeef0ec1eab642cefb7f70ad5ec97dbd0a81a504b41761319ce861cb, 0x1821454d678761836d2bbdc37004b19d2acee24ffc39893392621d3eecd7a6bc, 0x3c4a85f499746ca0bfd250576dd3bdb81067c55f1aa7ea6fd7d7a279051c1f7e, 0x454af08e85051a36a9744d8b9767bd55e0e9a2bb29ac2406b02923d026906ee1, 0x24aae01f36d71646eb61d0eca8755bf09350774ebb62766d19370a5b6d901266, 0x2a44dd6d5d9473971abe4a62031dc96c5703f42b5c2c8006292de70137e2e3bd, 0x4a3489170336fd46ab07cc8c3b0cda6775563c45a7c3376784acec1040e21fc5, 0x7269f688c7c8fe4a5e45ccdc9f0e5302a514802923418a91a6e29f556097bee9, 0x62e9bb7a79851aab178837335f200bc1aedaae6af0d298057ad9f810698de4b5, 0x4a0244149ff365326631421fb581d55f87edcc81c598127ed5feb3fa4eff4125, 0x5a3253a70c73b78c8c5c6e70e90c5ceee86d6ead0271cd444647b046d014ce5f, 0x1e91c4247b01fa87f4a1912add823e279c98ec96e4dac9de3bccc2cc0cbff78d, 0x4aed58b904e07bb646505387757a320ebc3dd8999cd0f43d3c43ea8c67106416, 0x5e20e13a40f68b3f7ba6239a83f7bb01dbf708cbe99433caac7981ce8a455425, 0x3e29ff88fadad0a1721bde30f0ab5dccac0ddfe257cc13e856b2a4825a118d47, 0x20d971b6e3a0fcd865b3d59b0e937af2037f67f40d3dbb77f141b94726b275eb, 0x38e08533d9d4f0d16445a25168794c59d77dfe249c717f34ed477540bed426d4, 0x183e9ad98668df589c3a0f5e00e610bc9fe0a5d0b8c0c8aa1995738a8513692, 0x11ce5c974dcd94b3eafeee488692d5aa680947fd24bb0f03ba4172e1927ce8a4, 0x5bc2fe511432c15e367697dde9ab3742d9648745b60fd2b8a43c2db0fcd057d4, 0x6337ca6bce17728d43b4ccf7b9c20dd51d22fa8ad636681a4f006dfc78b89909, 0x642b5bc0353164e453e48aa3c2c4e18ebfa6bff10f2429566a2556129064023f, 0x6afa71622977edbf9b47d1a5bdf3b51550d6710e99b8a82c8e8bfdffbb00979d, 0x54e7509503ea12f194c7dcaee39fe7a51cc37485ff7bcc7bf61928168f1a83b0, 0x1b2294a8cd681548d13ae0aebac38e155538f7fc7f9498db39ae88eb0570a23, 0x3b5aba253e8f8d23b8a73743a13165350eae9e2ad7b5c8a8da77040fda05f0b5, 0x1f1b86f618fc89cb405fc2d27ac9d53cdeff4ce55056f7af33890caa9488ad26, 0x52a4693f424caa6448e4f6e3c6fd64c348951f12f198e1c771c67e4305ce2e9e, 0xa06a3387e697fc224a1da426086a2da61f6eb3258b52d5230ec3e5cdd2f3924, 0x18a8be0fceb8c264383abd6db417d7187447e54f573b842b86975da3329f6c64, 0xcf5ad18614586279daf763deb5001d0e6e5cb1cb5afadafc76b19a7630be214, 0x701a7fed5d01ee1b86bcf2790d947923a32805fb68e50bbfb143b5be42420dc8, 0x46c686187fb341d74c2d8011b8ddc2a53724b7ebdf44af35963a67ca22a66155, 0x245e33c5167a9a5022c24df28f33d3241e900dd8d0caaad13e1a9f46a69aebdb, 0x51f9438342fd7735f9b5be6fe2ff403fff476eb7ffa6fbdb55717afef924192d, 0x3bd2746a960d250cd8a238c0dd8f67d1d828fda5c2d6bcc2acc9d6db74361321, 0x62ef902399c02173a7315caee3e760f2f15524377f8fbaef4440bd0bb0803962, 0x5a71af49d6dff19e8d9f988eb5a5b50870bdce75fd0b0051163767df0c4a0039, 0x67795b75dbc7ee8b2563968d60b635e61dd939a2eac0af0f308efaeee99c76a9, 0x8fb19c69c2b2d67acc7a007b8c981bed103e6d4faf2331e6ac2367823b4bc99, 0x60cfcc3452eeaee28d6147008a98d74a1797b3c5f2af8ab70ec56f8b53ed05de, 0x59a28ee6e85633ed2fd694ac5e9dc1d1ce774ccec016b99d05c9eed24a35a6cd, 0x244bb0864247af10986f7e98dc2b39c0e5165254006f4792dccdff284154a0c5, 0x1a1ec2de0f5216f56ab1d42ef1d0d3c33b5424728f83ea677e87e5ba27dc81e7, 0x1abcd89eca331da63fdff9cda8dff4065d07990e7cc8327657f2b331e1a5b99f, 0x50a089ee4f0d4b25bae761fb0a66649d342db0c82665f80d4b38b21c4ead1c56, 0x25759cb215e9df5d4ec7b87a029d0fc28dbeb6b35383791e4fb5c6c817469a03, 0x600d13122c92821fb633d83b5da281c66ce1a6bd3e9cce1bdccd68b9e6317f10, 0x1079275e3ff3d85c8fec7b2f352f7e0a482f80df630390e341c84aa2c9a18e84, 0x21de2b2c2fa57a281f4e6e45a11bbd59f93f119c059366b5944214648ca53b65, 0x46722146ac7292f700df8b582a236e9db670ba2ec422e941c6adebac6f471e62, 0x397736725616a07b381b3484c1fb8837b215affcfffe9addb7bb2cfb8b8a188e, 0x4ddf31a90dfd70eab9fad424cf181e6b9b0d11555b2f2b2a56f68803a3150d86, 0x3d0216e25248fe4213cf73a8730ad4bccd6aedf602d1ad414d3d3ac06798a7c6, 0x65e1d14385c1068a3c9f94e4cd85747d44593e46c14418d38087f4f949e0605c, 0x51c16da17dc14c256c20699d4c5fd4f66e00fb1e1b6ef6c7e20cb4a06d024d2, 0x3215618d9a0775f47e3fe884eea82b7a02b060fe9f052bfc793cee16e9c9ad17, 0x5d8df46424330c626cac1c82fc773ddbcc3267a40220759d135ba3d800fb2c81, 0x2cdba2de812062e62c953055f8b7bfbb8abaf0692feaf64c566f9bd2c81b7567, 0x38f50c34947ac774662ceec521b4db399c4ed3d16de09b60ef8a6263a0d5121c, 0x31df1d82ff81da19f95af1b4cb0dfe541301de7ee013effbeba0d2a291fa27b9, 0x49efce607a0c7ec7a3a16f6da7ebd3afa2ebe80690e822055b2cc2bbc6cfeb75, 0x1a8d6846ee89824934096bf4b59c94e9308d40ece82dda4ae6b10f8c612f23ec, 0x1e2aa13c9b7449b7b426f5165e1f243fa5e3f233e3637434ec49a54e232cb0ae, 0x4a12f44aa78fcdb62f805644ffe6cdc48772948f2e1d530ea19163d27e3ba44d, 0x4c2204deecc20549182fe2b6fc65dd3e3307f08c140a263768520af29eefde79, 0x2fdfc1ec6aca233e2d77f8d43e729d640762e38a272c8a71b493e20792fe3de4, 0x40b05add3088af5d4540b8a3a8f064593c17a4cee6c68c3b7ffee5bdc1de4b37, 0xe8f3cc56c70c11c146093562bb4cab9e4a3cffe7cdbaadee3b7806709dee338, 0x147e052029d339af3443865db7fb31cf5fa579eabc83b1abf5335ed15dbf4d0e, 0x3b53300c25fd28a72df9d372d8f2ec9c7bf08e9705d8257bb9f4c10eae350c74, 0x37f63f6a12901c13e2e204be53d9755a08ec7b8766abd8860cb7933bda9c3300, 0x60a67a77b03528ed8d70fb24ad5f607db763d761b93ea189093cdc55d1b6ce4d, 0x2b120fab9b0ee9645beb8105d795ec2c3bddda68ae222b927e650e8b004fea94, 0x324aa7d92eca34e224ee95290123f904eeecdf918abcd1cbc7dec0ecb6596c88, 0x1ada9da0fbcd5ca0c8177ad7832edbec8e71af83f7578875315ab1bd946a540b, 0x23b3864d188081ee66e716ab7303136c7b44ff18c497bd20699aa70be7a511fa, 0x62e94f4bc23ee24b3614605c9cd61c54248e5d6de3ee1b533b4b08992a8670a2, 0x33c70fb867d770de418fdbc0996a69486396d3180c91818ef830041efde7aec4, 0x7139475c627ec0030caac075ae52cdb296012715cb538e5e8d96d18eb2c8a533, 0x20274a1db6094ee3b201985313ee9f59cca590436ec7f2f8d9e2142d146758af, 0x47c0b932f84588061b968d49628356e03e8c57bbf791a4ec5ec993e90d1bc280, 0x33e4c4358fa991d8081ca7a1f0e45aabc227fbd5466c10d857f7311443c39830, 0x1b9ed6457dbecb1b3a27bc02c0d48f1f4f9605400e96d2d9c1ab4f356e4a0c49, 0x14226eb8145a529ae581bb3c3a20f0a56b0bae59287d90e6955f3052cc5d1298, 0x2bf16bb73f8f1213dd56ff781f2d49304b75e4efbf57944bf5165a6b51aca261, 0x136ef16da802ff1358578368fc8f6df58986c8daa5a503293a24dcceb46bc2bc, 0x256b47ecafb0e1fec84e1cdab50ea3f09587c4be0cc6c3dbb50dd28878b0c0b9, 0x544fef5c8cbd4815084f7897a8e51951a903f3ff87045c8314f9d22c27b8a1cd, 0x6fb392896d47f32652bbe5d6bdd983de424161560540c986b3190afd1e4c1e4e, 0x1f7eb2265e18143360c530e752ce784c0cc160e769f2255c7b92a29bb4e60a, 0xc0d7a7ca5f2e113909c260d27337853de7335014c6ac69058f05ddf315343b6, 0x15df7fadd3a18a6ca1e29c4bcb33a3b68f8bfd24795deeae212ece0afdc7c1e6, 0x4ad70562dcbb7a6f798a4d3061c1b81da68c775b32eac86feba22bd432789e6c, 0xc1e236cb731be3c3d408df2ddc4b82ea939f5252112a9de4204a25dbfd90d45, 0x14c077bf67699cc1dc16a976a6d3d002c39ba7b2d96074c46315f3e25c8a6e28, 0x3c9d1400ee765b82754ffe83ced7dbf85a17a83ea960f593cfc50d8208a9f019, 0x2b44a0e80c395c1264da5611104db5bcb061736e93183fa8968d9a5522106c56, 0x1950b45f375c7524364f53199cbc6b7be9d1adedee407c4df23e0817bdfdf6da, 0x3a91a4693ae67c9aa77b358bcab8faff954b3a39d19983f7b4b601c5caf0a07f, 0x6d149f664b7c22770e51e84532de20d743748081e1177ebaa848add736a099ae, 0x6266a27a5e7dfafaf3919e75397a7ca30e32de8b41f2daf3c1fb8464303f6438, 0x31eb8edfa17e086759a32288b84960ccfc407f4cae3c53a2dd16a45e93fd24de, 0x11dce242175329e4c304fc26d80dd09ffd0a7d33aaf31c9b6935d09cd1fef409, 0x2d7410066bc6408f9795de64b339ae026591ba234a0845e16e77a889a29f2529, 0x572cae63827fd45c9b5454ccf9865f704ea62004a6408ccb550ae77f5f3f405c, 0x333f163310ba706547f39c6797de8004708f3613addedd4f01aee938ada85003, 0x23137543f596b81cfb83cd5201c0bf60bcd3f015c16e83b8b04b587d251316d9, 0x2ac3d7641b0285bfd356263c3bd1347fb59598359d958959516f3410cdcc1c14, 0x2bcff1b93303aeec26451a382c70ca8ed2b1d6a6a969ef7f47f2fc82630dd3a5, 0x103024762cde826ad19061fba7c4d86c16147ebd059737da6296f947e012227, 0x25173854dd0c5cf09fe2ef40c17c64440e0aa62f06f022b3575e9b0379881f, 0x1c6f9ea8dd5272d9a116a0c317287579d59de856a1f2e19ea895eaef49dba8cd, 0x4c3479e7ae05b50a6b53f5320cb8c145924579f6009e3b21df5b1288c168ba15, 0x68d05fb80882814c0e92bc68796ca074320dce370a14257d07cc06ca9024c284, 0xe5b32fca2c53ed96631fbdf6837b57816382de06152b28bd8b15c9d2091365c, 0x576a3f8d391f887c282ebe487432bf8b15bf390f53260061e437021a84c9066, 0x28f5f5a9f53601206386556bc3b502ae094590d9411a1eb99768b281878411b6, 0x2fd07267a34ec4225c65812cdc812aa1ba3d4f128b0ea2847f8209efe7c1d2a0, 0x39d5bafc6a1ad9593eca7ee562f66e7dbcc50659e35e8f8163e69b724e808fa2, 0x3357f5de3d2969cb7fd9fcf0fd3451246f67fd7c14735d3c5d913a5dcfeedd54, 0x34dc0e473b36c9313557cc5dbfe26ec3bf593357faeb45b5fe248a1b2cd56099, 0x1d176e5048d7329abafbd09638420bfc827aaa77bd6d080ce63b83a4df09661e, 0x4e832c131f7baa981de60b3bb312d3e66ca794b43be482b3a4a0bc804e43b42b, 0x620dbde14deeca397e386dce02fb0b2624106bf3856a29bb21da1ec346b8ab05, 0x4ee107d97655b9ceeb9bd2933a8df851cf6969852953ffa7cdf39e6df15c81be, 0x1c2bd26efadbd7575fa9e82b7bef9316a25c62e92444bb6566ef6a2fa58e246c, 0x3596781e0a81ec4d23c1512f6c483a74616f9cbfd0fa84bb84743f8b79a1d2ea, 0x640c3ff66467bb33e6844a7df2f9fd521d344e198eb2d492726dfdb295baa0ba, 0x5856e67976b72e9083cfd3dcc836520175bc39f562fed4dda3d635181dbd1977, 0x220067232723abe4e08dfe39c8184b6d33d2bb57af38a49a62b787004b3b2baf, 0x583e54d1d0ef77aeeab28833d4115a675b1d4475d2258b8dd4f269b51172ee7f, 0x696c0b61ec9f582f7aef5f94e3d4c7ebb19025fabd904e6da263ec59e5d92b70, 0x340524a3cb39ab8370e067759a5b97a1877a0f0fb88c7f8e07fd6b33de93acbf, 0x3fce12ad75a9e1548b97ae337999ab1f207f5da4bc7d42344e10fb202ee3a9c9, 0xdfee9694cc7ea2dabca35361585e272b06461246aff58c47d14473810a28836, 0x678070ff71cbd8654be53e32594edc8a14ed4769d2dc25127762d9b2aa5559b4, 0x6b160664da0c9a5912d2179d32f75a27851a79271d5b907dc2175dc23f72e23, 0x5846ecbddfa5ef80eb030b4c0622fa5281af016af63142e9b9badd43d4693501, 0x43f82056bf5517729365f264f9f9a054a35cc4e7eab08959b72dfe3c102b1a7e, 0x6c6800f32f1bc14ef4efb5ffbd93be5e3861cbdec2da94c4d664eda72a65a9cf, 0x41b9194e3a9e1dac26d59a08d8c727b7e275e149a1f48e35d17022e743cfbd6a, 0x621d9b1527f662543b18bd936e1cba2e96652b386ad0c11c5e4ea6e14644e75b, 0x2905e675383fe887257943b016e0cb4a3d97b2dfef9a8b4abeb16b181074e173, 0x4369fd63c9c6c88c57c4c688f880562f9486018fe4d575212dd1808db81a94c, 0xa7a5ed0f57324f3a861fa7aeb23b1b2928d16610ad43e2b892c3a5d4ce35f03, 0x365d5bcd5d937a29b6a83156ba13a8ef0bd17e0dd83a15b30dd9f90a2a51d24, 0x45afa5cf3ffbfbce0de1dafc91dabf2f4ba519f90b4c367d0334986794ec0645, 0x5b1913b2066599a371231ef4f8d08109ea1468e867ffe7479396d9ac3fdd2d18, 0x533fd8138b4b225de998eab62753fbc4fe797dff404d6614e52aa6ca91b431ef, 0x7058f96e5b25b34acffe6af122f2bfbf604ae34e347d0d632b89c3bc7f01fce1, 0x439ac94a00d199a1a840f49bd737b7100378e073c624c0217df9ef1d653cbf2c, 0x1d4ec7bd4fbe41c74d28a052e1c7c7647d434add221464087def04ba57bfb98b, 0x6615a1ee9fd418933506bc19042e23a577b3607e8d3f3de67f70c89dfc6f803, 0x46c3d38254f83fbfaa9cda1cffaba9d6f51bd7bf0f4d1e96d72a7cf236edc4ae, 0x2caa69e9a756a2d543000a799ee4a2d113fecdf070d2a9b51dee57e9f1b6161f, 0x527af8e9929d12762600eac9c34398ae6e25ed8f676bed37b9252065f686b131, 0x43553ecdb69425b4793fe5e22a8d533cc3b108de2e0b1f998c8eaca274167268, 0x185d88082eefd5a113498beec53db79e01ac74de49affa2316500415e4e929c3, 0x41bae8199675445ae97727ffddefd6a2683d4b628449cb60023455ed1026074b, 0x247c9b6bd7cfb68cad0e52f52b323a1cc5749c2a0a18bea53e0539525720ac0, 0x4b26b60b33696866cdc5b5861276d85523e8d011e53b535e2d856447e5eb6ec3, 0x64310c7acb05bd1f5f412d81b96ea785253e3be0028599bf2294e95629b3ea7d, 0x61735df15f50ba7b94f901e87939efc787b8318a16c4cc7290f5afd0ddd2f7bb, 0x4a94e41ac29b10881642b25424cebcc4fdc591e139c74605a82b96e10c7262d9, 0x251272405badbf25a10d20dd892de90f8d6176684f234e5d159a9404bd59adcc, 0x5f342aafda697f428548d1f6b9cc295a220cdd0b36e34ef109ffbbc11b334a90, 0x4d622ef23c60bddf33b134b9f50c6fcef6ff18cfaaad638d869828d6483ee04e, 0x462ee53e458b87f25c3054591aafa4b498cd2bca40715c446c090270b076f163, 0x2c9fd792e7e1dc7925eb6477b312e5515347cb91b714a889424d8383eb46cce4, 0x3be5871f22e6538fd3356f4e29fc2cdaeb25dd6c028ea2ff3fcd879fb506320b, 0x44b821c3a54f7c85c40d88525b011304eed08c4e8c05d98a69cc4d9fa8fcfacb, 0x1392d534b2b3b1c30f801b1f8a56f926b403849b5b7524e7fc6ff748a82f1130, 0x6821320b78847192a88bbda3a00635a0084415fa8165f7f365beb3b495448f87, 0x1fd8323e0f37d7a3be21e083da18428d9d24008a91f003a12e6599dec8d2f90f, 0x115a6c2a374e7684105e54a3f614bb1f086d7ae67c4737dfe69678cc93adda8c, 0x6da74a07422b46bafb081fe5e9183b469b495edf00bee16efd793e2c6ff074d7, 0x29641d3656a95b0cfccab64b4a5f9f2a47a81fbec298d0cb9489e8f518a3898c, 0x5e2e5e4fae61ab6542165366ccdbb450e0bc832b7d5fc06c6492e9c376729c63, 0x2e08691f5d179992947e61dce73341a851f5a2bcb430aa0b82ee9b92b95881f8, 0x6ac7c443eabf7153c526ed31f718a01c5a03a4665773c9590fc24a9d750f8f3d, 0x5cc4ec2236e2648ec918414d23e964ee0b51eeb075d9a5596c01b8634f1ab979, 0x4b41eb36caac3bffc352dda925059e1a1122d4aadd141a805a446b07cae0b3e9, 0x392c0a50f432d0420237a8e6dd73f284a0b3311db63c900caf3f66a1e48dea1, 0x4982df524ca242d7643c1118e6cd8f63edc411d61aef20202a7dc997420a16fb, 0x59fa9e011256b4f794ea3e21be626a4f6892858a0bdf2e891274573c4a6898e, 0x5bba1fc81a23d40bf9c9aa7642893b37aaf868b02798d293df6d9d8749b62495, 0x49c65d81b43b943c476a83a6e0f99027064193fee7f4db28b4849fbbd737fb68, 0xf1328dcc6b50ee016ec603aebc02b499ea1df89dc124d2bc1bd3534d5fe47d1, 0x71d21897b898e88c7aea50cf645ba8c26b6552b38091c45ed2cb89525b5f1b5e, 0x70956b78f6a8dbb646e8ea68aa51bddb9a5b30946ca7326ccf49310bf90d8c50, 0x19ff3659ee933742c6212f71c5699a43ea06b3e97d3b1be4a3b246fa1a4a688d, 0x351a1e3df00b3390833ae3e5a3bed9daaae46657accc84a7b5e1c98248a65362, 0x2213f518f06acd54d79298cf38f32b320b392689d951ba7bd58e21dedbe38a0e, 0x6c40ab999cbb4c4fcc392d69bca4f4d6d99a449245e8e79a1ef1fba4f5684f90, 0xe297c6f233a9d1cbb793e04100b4cfbe5cc9585b13f005c4e4237e9fe34080f, 0x6ac3825b72860ef05baf24a2e45334d5e3866a3e63f6eb0739b23e87645985a5, 0x46bb8b6118b6316a8e9cd6860cf98b825d74a0ab67a361b7ebfa21ff99593535, 0x31b6fcbf9422e599daeda9b56b7db7a84fffd07152f0d39c470a090060156519, 0x3468c054e5d4285285582ca2a55250b05331cd8216f05a9f74f4a50ad550d1f5, 0x518087de2d644daca5c3c6b747b9e22b967225bb75cc49522165d3139fa5f4b1, 0x1ab72ffd283deee9120e0ce7d65ebdbe391dfd6ff0050cc6cfd182ce3be2b22b, 0x737ca6d7d824d93f3791b5d0e812b8f2e389c6f610ad97b7e5354edc65a07a81, 0x373ce718b96c1c6d277a818e9eb12e0f2dfe6e8816ce70092d6222425f35b1da, 0x2af3c0c084a726b5381733415c582592755be2dd83aa4e265eedecb5d780fb22, 0x19355157509b4a0de8f5a24545acb1667d84e5c9945de2edb61c4853a3e9f8bf, 0x72f09b00eecdeea805721d9afa71938a066bb80ea62edf2285dad0111fa4f87b, 0x4d8060389bbe62e0f75ac5a4e210cf448181b0b78710c96b4d360e7574188648, 0x322e1794a871a8e04a7a9a171724d79692b7544651adf5a0dabb7fa5c225cccc, 0xa8ad04eb803cd10fdf765a1d5a6189d9675ef7673129e04ea38020b38e38af6, 0x1f6c42bec6b0cd048db7ff08efd7148a3247a9e22de637fbc52561546ebc3e6d, 0x180550cb702d2e1d529537cd7853992611c5cb8ecdc36e52c9793c834bb6133b, 0x693f972ad41680ce6a90c07d873d8dc5b0e00dc59548050cebfed8e0c172d966, 0x4d225bedc44afe76fe2cac85438d78151e8ffa3e8c9db662511dc2e5fba98453, 0x388baf18166c9df71a99c001e6f47bbe8e4aea0d10ee44a9cd266e967b12ae5, 0x8bb13d29f83157f16f32fb241516512289aec0675d7a19d0791ef6401c92034, 0x416ea8b84d93e1e8669aa365a9bba2e283e884af3d1e2e4e7f44c4e85cbed234, 0x2a40676616057fad4ad92a361407440a78cce1003cdc75f20b264544f76ffd82, 0x12f6fd0786dbdfc8259955903c315ac12fb243b21303cff324aed824b19b7e21, 0x4a1f28e9e2516852e976565d9203b00cd84dae751513eb05afbd63c760eb649a, 0x3b40cf9c617250fb55f8b47e60222bd5ddeb885cc65bfc5d06e2727c226465f8, 0x63912d8452801073e4388fc9f26ead21b9931e6774246c36a767b31443784a0a, 0x1232957c500290d0b8134a93992d6e957d7711658cadfdde05a5c8873944580b, 0x1757bb37dfee2cfa6e3550dee3f91f16b231e07a4c8b5352c677277584495ee5, 0x330db3229f37a6910019460dc6fa1a96c9013222609255b269baaf1b2254e0d1, 0x26cda6b86bf63cacbf1d3e325045a2e641c6994256b069539cdf0898d90ad891, 0xc39dbb21c826df80572d8d6a217ba4dd11f4f390f0deac46892fbf1a6c8c1cd, 0x5335fbef4ec4b9d69bc3f6fb1234a15a8b35837617e3c649f04bf4b0039a5edf, 0x5bb6d5402354681a8e57ba20933e843d7922d35e484b23fad4aa5773031a67af, 0x413230a1421b0de395774c963cfdf9e3eee36a7c6bb65fc77c982bdc79be3b9a, 0x523e7e4a96aaa10983673162410551202fdc6577cc93ef4b85e92ccfb002eb03, 0x128ac7e131c319fa3749e2a773ed0e8003cfec99168d602c742573176346e1eb, 0x5da512101391a01798eeefe765f83d3a3dfa6f8085a46edcae8656dc2727c8c2, 0x79a86e4576e1a4c8d2e28aa435177eee9a7d7f18a8978a59ff4e7a06c2f68ac, 0x142db96562efe235f3aae8f700dc8ddfe6d8ab20747ea6995204c204f1f7a525, 0x5909034cb73e3645571dc6cc99faf3cd0995ae0cff4b325d6320dc098c315a6b, 0x855d26b52c24e6ff0a16c69261361806bfd2e51fbe3a43f21fbfad1e46247d, 0x40cef47ede3ea17cc0999df5ecb75946c24748ba2b4bf81a948a86bffcc7f741, 0x3663fa896fd47c54635af735eda29b683e7d39aabfd6dccd3899e74eb64b767, 0x2e62a106aeb522ea1b2e422c8869e172c92fe39895bd80896ad0cebaeff89911, 0x2d3bb449872d2d63805bdba499a6cd9d54a2aa479d3981547fd513b8b3b8814, 0x6d8dca4d16655d58efbafc81ae35308c07ec65b47d3d3aea642a3c50f5f1fac2, 0x6ef7fa5a7a7cbadb2a6ba5340b3c5e4447d1094dabdeb7e109bff069a9165865, 0x58636f5a3a8f4155fabff06ff0a4d1be52e51595fc8c796502b893668e705a76, 0x40cfc3f55257844fc5a278e585f92385f9dbf2fb72281fbf061ec79ecc76d5a, 0x3268e5e93395f29a92587a8f1a771a35b625df6fb3de0498448d5c26bf87cf54, 0x705da93fe4db858142a2cd280486fc43bb519b104adfad61b4123fc13074a0ca, 0x4d16f81d9431994988635bfbb13e120f1daf59d23159398b2ab3236926113fca, 0x6a56ea11e80932c65e8ff7bbfd0065c64a971fd617b9fa1b228e93aacca7b578, 0x15f8cbdcb76fd0f85871250c7e43a3cd49253d950e84ae59989a349740b89484, 0x11dee8e7817ba7670f5960f572d0e75586b7f45198321803c250d88ad5c7f7b9, 0x468d821b705251f8ed9604ffa9ec3fc33a4c610b606693350040d7208534ec0, 0x4d09215fc36691db6a5d433ee32b37640ac77bbc8c1199a4f462556cb0efd574, 0x11e94fbc9ca27006ead3ec394a7dbbe9b54dcacf19039009e5e896b6bbde748f, 0x11ca0e54ef763adad450f9a09cbd4d170fc7dbac3deea852e6945fc0b0825906, 0x2c9e6c2823ca6b75998c7261d55ad2beb93ffc02db6408e4d8c6fd6508c6ad70, 0x68378b5e878b1530ab8f215f5f17b0fba401f25ecc8aa40542163ab392906e71, 0x720c63d4a15a86671ac14ae0e968a61442312c87cdb5ee56f73e6fe8b8205abe, 0x54888b20077af2cc3e58bd537c3776e5177672c9fead4aa6e99ce464d8c93125, 0x4cc76e423fa043487d1304a59700a1d71aca6b1fa6d9667bf909d7bdba6aa253, 0x1a01e6782837f881a5f772ed6b139608e2e9c6716e2ea4f1fd77e47f74c97bc9, 0xf15b76f81faff39e65e1ff286dc4be649d6f4705b9171909b04527ad3b7486d, 0x5bbc09f2181a89636e31fce021c24b34c094ac0e9ab064fb273f1f956bc7b378, 0x305146532a85a2c824a0322e5b1301538bc4cf340dccee4d1548047e4c0b959b, 0x4323253f93147e62cecb2a9b6b59c532b5ee44404ee53909a4e108613d271ab9, 0x12d165ccc68bf4ebededf028b1aa4959d5f229497443d5f4d4bf69125cad5a7d, 0x5f3a0543a57134a351bc6e3ef97c5f1cee4193a1a94a6a191a181a9f19606cc5, 0x26d520d6e3cd01f5de310c81292e14378426fd591ad03cc2ac57546ae93eafa0, 0x6c74afb65c8a1b6bfe443fb704ea62927d100d61166cc57b8a57ef7347f7eadc, 0x21c9265184bc4ead4704e27c5c95f08e8355f26c2ee45657edeffb012fdf50c0, 0x241b1b2b603fed61b87c94c19b6bbfde5d0a6f4c4858e71c1c87cf038246ad39, 0x5945bad2c432ba484fbdae580cd978ec4179f7da8c7820ff76bc4e7934be5413, 0x2ac8d95481e5c070bfa69c7841bf508063e5a46eb16986568edd875a7edc87ea, 0x8e591de538598992ff59b342fc3fa12c436cbfaeaba84586a1cf43bb837e2c5, 0x45373da2e0f63c359a39891ffad61e0f63c2f42b2e05b7899c1b67839e54c1fa, 0x20733a04f18039ffd2b8ecf2952408fe0d5e5509f0e6cb71403c88751e266a4f, 0x3b2f494e285a2e7c966275c17f88ef8dc84fc635eaa2dd9c2b1f7071710afa94, 0x6ccc7d4c98da5fd9dc44993d54672b6ca3ac17b499927ec6f8471e5ec5c321b3, 0x32a77bf196c9125bb4491780d7a31bad878324785779d9c91804046a31616082, 0x3773d5f6143977ef825026778bcd707d124b7a654b4076f4998766ca97a6e314, 0x506672fddb20006adf1bd8f36275714839db8f144d16e147d9bba31917f09480, 0x2cdf6c3a19df9e08b0d04d9263001a5e52d0fc680d0300d86f3e381dc027ee47, 0x30f2a9104cae074ac0a06e6cde9a8012a2cf084f6006ce917c5afed057ad69ee, 0x6804328cb22307026a91524394f8dfcbd98e912f64165d9e8d5e02fbf330f139, 0x237c9b5f47ec44427ac7b123ee26aa0a1c6385d36c4a10e55db32a5acf5573c5, 0x3b333c34024d900b881f6c516201b977916ecf23ba56eb446d502d55011345da, 0x40ff6eae5cfe5efd8fec8707ee37b16f9a6a3ba2f915cb3fa288ed53c54d68b2, 0xe8c79f27e1bb591be94db3cd9878817b0a0046b6f34f0a913e9a25d8045af57, 0x72af8ab9c5e5a12b18669efa8bee21984009446f64ebde92bef6dd82684795cd, 0x665ad15c36f335cb9420ffd2ac7dab34a4dfbbbcaa3f067d9138ca5e5355038e, 0x2547b7d2b78ae7ba7485e94c0ea6f7f939d5cbd573fc131dcb5ebc025f83033b, 0x2a154782abdfb8af1bee6599a72a86a2861c6dc3be9acd8bb9ee4ee7459fd6b0, 0x104046f0c550c862fb4d8a4262dc1e8b9a6cb435898703fa7ed0b00e84196361, 0x1bb840a7139abb1348f26ca3a3ef1c2afe148097d45ca98d0a1105eca52b2491, 0x45d4ee3b4123a7f673f0320f66ae6a45f1b386fdfef4d3af68b700c7482b4c98, 0x2466cdaf795e2986e30d5c937a9303daff46f6a3e1e830526f36edbad849d1ef, 0x3ba2cdbbb00492c6d7712469059bc40e46f939bf003985b42a20f6bdaa2c631e, 0x6e21d8b7e98c7a1fa4119741b13c1fc5d45b7104523a6cc6eb9086e56887646a, 0x1d26bc38e6e2421b76b8cfa185ed96a3e89669a579c7303df9e898938ff77659, 0x60299acf631e3d549951c6650bbe7c90b3ad2abed293900d3935162afa3f8fc0, 0x4f7943738831c2e2690c3ec031ae4165cdcb2a59249693f28113382b742aefe6, 0x3dca997817cd42272b2588bf1c3ba16e27b86cf81299d10f80e9bda6d47d56e9, 0x241f372d0cb5f84f5bc2590864598f61770808b9ecfff4c1ba20b638a1049998, 0x1654b13d770c9c45bc0bd43b878316b0d09a836afe5994c48fd51d64e061ca5e, 0x52b84f855f4ba720c14da8a9711ed88843bc1cc75f9cd0c78354df2cca7da892, 0x7310d730a339285723040680ac7882f315816444b794e8ae22d5fe1dc5e0380e, 0xf43e2ddfa952d84a23e88087076aa378a6fdbb7d0887acf63f82b813c643bda, 0x57458bcf4b725afcabcd9a61d85e71255db18f9b00740210b51e47e8df71967d, 0x3854383c7088bcee4409d79695d1b73c5104d7de3c99aca8aae697b076acd36a, 0xe246edc22e2089bf7b3ec0fae49910840186f7eac92cfae5275720839355a2e, 0x8e67fe0d2e4773061c75e3cd11f0838ec0452a967bab668b29861afec3480bf, 0x6eefda718a9554ff977701a5cb5c44fc7a9647c0bb07f444c76d43d62c1eb410, 0x663d641ff4c87c1491c69dab66ef15ec484808a16ee33ceff6c2a617bd555487, 0x2530c19368c7f0271a941d4731b38aa244d7e8bba738cb13acf015fa09b7e7f0, 0x70355c0f08dc7c52b2d4e9f8424f1ca00c236c2e20db8ec6a2b4bc7a4f53a90e, 0x50e209780401202f94da1da3fa8e15217ba22d434c2daa188cfaee800a4f6ffc, 0x6910b3d101d78af5169d878a1d72778585ea4ea4eca8ef7ae2077a3403cc7e3e, 0x5197f55b970eb736004faf5aba26031bbd16fd8973b7c78597e0d1178576c5f8, 0x707d45b74335b7cede5bf54fa049ddc5e7251316a9cdeda56299d480eaf4118d, 0x710345334ee3b8cd6ae2a34a1c900987bd21c07bafb62d5a4d14626f598f0a3f, 0x5d0eaba72d066b9f890b8ba862651727f12b8879cb4920938be02683ace9a583, 0x55c7623318211c8974a0de3837ded528c2f81729b9aee8aaed30156c56639688, 0xcd6a37b76d409ec596dd9d0bbb9021ca66a636e6799494f3f9d5ec5a0d55851, 0x4821cab678dcd2aa1908b4493ef32d87b1db55e8d397dd4b3312732eda72135a, 0x187e57fefab3312c27c511c43cb6d4e9f531869c0e50205a736dc3cfa46bc440, 0x55f39105e516d52293e4847b66de960153234040d3786887fce83402bd1d9e19, 0x1a935f90f01c4af67b816db81192bfcfe7f3a459d5ee921f37b870053011e311, 0x62c8dedee0cfc41a8960b5dc9aaafd42e73bfae7120c98b0ed2168c58be7d8ec, 0x391ceef611ce4a1b83d9d6ac2a1cfdcd89e8a85bddb41f847fc0cd690c2dd05f, 0xd8bbda79b178fdd95cf97ef523548f265970d89da40377efe28ce457505c25b, 0x230d9f4cb105e6a002fa30b6e221eccecc7e3d320640ab3b4c5e02fcea3457a0, 0x61459dae5021000037830cb328a0ebdf13f7a4e0a827fbfb13b9f45c35cb1378, 0x1e3e1e3b6a1e3b9e66baf973f2d7ed3bce85c165caaa34d520971cb24bb932ab, 0x2f602eb746df69fb24df5e3fc6cc13704a4fdfea43118373969bac9c235c2bfe, 0x1567ef6377330008c81b1b3575684d556a856add23900841c275ae36d512a60a, 0x5e25f7c1738fa71584e409fde6c26c7f87eef29bfb372b8fa4ffd7fc6df02ee3, 0x637e2ec2e5334d5a810fdcfdf24d61ea07859c76afea2669d3b90113e64d6ec0, 0x35cbbd402b9169279c850c4409a2f2c820fde478aed6f47017a464efae6b975e, 0x556200de5a957e06a142feccfaee450e5aec0047d89bfec9b39ae0ee46433962, 0x31c0ab08f4ba36dae82886dbb204c6ab7b42979d63f35b329dd3241653c49464, 0x12e4000129e33cea0f6b7a19207444f92bc9fdd4dc1dd38046c354eccff1742f, 0x25ab3f15a5de75d4ceb51ab971c34d9657cf42baec19d997a9a82bc5d67c0583, 0x4eb8a38cb4fcc499b8f447d2a8776147b28ae479a20358d98b0055f4c90e11fa, 0x71ca43e5fefba91872e762a7db786b24583e94c04cf205fd729aff9d05c34c23, 0x4bfd7e7618a6c53697a5aac8637867bbe691c6f1bdb98b5895d82b4082f1e6fe, 0x1bbb727715c2f04cb04481999608f0429f2ff5f3d7fb89353c17f0adfa17470e, 0x4e001b53ca084a96a269f9fcf869d557197c79e13041caefc734fa338da2e88, 0x1da0a18219052b37db4c9f26d2fa06866c77aa498efbb9c38c1ff75cb5f1f533, 0x677856ff25f4f361953dd41eba680a292afc1ab2ab874df4f0d6a52f1ef27588, 0x27d7280f10c6d9fe6e67d0f418e20713881ef3553d18751ee08ddcdc5dccca79, 0x1fe6ad9bf440eb2a0a9df6a59030b105b6abb68984e432610a2487edba40b143, 0xb321817fed2eb6831152c11f79f3f46327f3bf95bfffd8e2ae506f6cc3594b3, 0x14d58436a8ebf8da6b5b8c96dc1ed453b6037ee808cc5eeaab1fe2c76c616438, 0x4fdf5eaedb03dc8c791709c055928aeca96c8a5fcaca8010a9838aa7bdb1ab8b, 0x6f672443d62ccd8c04d79ff1268240c0c484e339de03b87d56b4fa0d687c0890, 0x15eb6b901b1ce6e7108abf5aff93094952a10b968311113ec2d8bdfd81387d82, 0x3d719b37832e4edccf63ce187b1a70102e7c678c07e099b81ac9dac62a84c11e, 0x3ef53fb329fe0277350287249b4d9cfdddaa25d78620158fbb7ebb680fee7567, 0x4b2df34c735b744f9f4456d2cb9c333c1039d65f2e3d77177c44e60683cf6651, 0x4c585fea7d883fda4d07c19e91a354f39e1b612991444f92662359b17ab8b145, 0x71b1dc9195ffd77ba3e3f44f55550654eb42c1e047cff66cf92c00473bc12247, 0x21a9e94f88976d303e63fa99cd592082767172198e1af1d06210323f0ab1723d, 0x6de21844b6e16995b9dbe1fc2979ec591e007fa7580bb1ac13f406866fe5b06e, 0x2ce4091e055bfd4194e2e8a0d3d6b5340d6d2de73d2605690f5491b86fb04c52, 0x3ec9d9e288814869e14523d2fbb59df740ed138d28f92c4ca07e0a38f479b8c7, 0x3dcfee3d35c619a96900f97c331b91b71140c2fe0790e777259f1b04b99eeff0, 0x3713f0a4aa827a1ff01351ffd7e381c701a41e4131f66067a448a8c1cb5d7e57, 0x121207f23fd60ed9eb2ed54e51754b6677b4c5a5365555d840ca27dd8909f549, 0x2f2114ba76669b3f27069c34e42a7a42bbd3090f00a0b34a5da631bd3abb9489, 0x620310484393fe6a990be67709212900345bb9f9a58ce09008e7cd89e54cdbed, 0x7f9d2f811c550989a1193e0f8fb35d48ac4dff6a7a43858006c989224e1868, 0x4f6f42bd7f9742413c3ccd0faa5245aa3971f6c236d76ca85a97f25f258fbf9b, 0x402a288277cffc1fa9726c14923eb11c3d576e8cdb0e5df4f1ccf061c8878936, 0x1efe34a6ee3fa2aebe3c710e9494e0e2ef5327506e27742b860b539238ab9d62, 0x33a56248cb385b297771adadbbc4f09781e3771b972d2cfed9b3598368b620a3, 0x6c16915c8f06712e4444db88ec86777d4fba3c5de2804d2bb8d04dd35f08c26e, 0x1f492e9768d82d15fd58e44c2c2e97a3a4a108fc48f2e669da02cb70d05fcc33, 0x4d2fe6a598d895371f96c2d42a5a825a2b318d788ee426ea181d209858b03a08, 0x6b9f7f6ae4743754f9f721fd2b5599d4456a0d26fe8d96dbb3a29ad1cf7f6da, 0x52cfa5fb08013efca1b4dee226eaaeefa8e6230f5a4e96b06059a768ccec550e, 0x6ffa5fbae85df7c4893344433791ea54907fabb92fd39c4b6b63bf25ecea82a5, 0x3bf5ed294364a49211f61d7ce34d36064178062c6e6f7ea1eaa7aaee2fa256c1, 0x8a15988a1e3e93ae4c018668de9df1f3351b848e11b9c67bc855a29efb14a88, 0x6a20980d75020dec642f0b24e62d7971f927c18263f7b3effcb58d76c8bb31f1, 0x55a8e9a66b732b800d66110e3dc2870dece2690fb876e31e4bf050a018e8e4ab, 0x385499c451c81caa4ee94efa27b69e49ce7370f216d7967021246df1176391b0, 0x12b131bc899d534833aba52b8256cd3fa5873d81e5f36ce9aa766609a5b59b45, 0x6f3b7d228c5bb845ddc9115ed8e251ab9968145c160423d88477d9ec7a325bea, 0x3ab2a9642420343fbab47cbc2dbd5f0e4f6017f72d31e5f092752988d38a6f24, 0x3142409086134b0d6aca46329e41975ff3db0c21f1b60b5102ce21142d2c921, 0x1d936356a7d0975c52ddcab256f399ac5fc802752ae9d3192ae9521aaccbba5a, 0x5fb2ac30bc8fb318415b729430c1863bf8a67bd7cb99d70bd2f7f80299c93b26, 0x26052a6c008c35d6d6bcebe516b8d2b072c4c124fb6d5647cb80970a41c2eb9e, 0x930a6829150b2252d0d62bb73af73cd188175fc8394ea54923952a922a551b3, 0x344934d40389b26e1b098fdfdf93f5aa9bb6e2be14afe08a911c577c7e422952, 0x4b189821b1a77bad697eaa537fcfa0a35b92848879b86b3ae95dcd16691c7423, 0x4783d55fd0b1ebaa224af8eb9c2eb5750261ea710bcf94229315a3fc5b7e92a4, 0x51e0fd880d9119c5b86979198e94e342be31f423b1cf0264e22af5bf6e270701, 0x67930c1d4d8ed74161b6f266faa972f4c04c1b7ad48fc5487df344e35c248f4d, 0x3ff84f019b7f48411efde9859f74f1bbbc098c1761dac9e359b4795ba9094167, 0x664e9450d6ebd0818e6109621fc6f72cee399689301c91c4f51b5944987f5f68, 0x33def5066267ec9ee667a804ec563ee62002b3ac001cf3b475ffef0e10caacae, 0x72ac08f2ed1062ae2281009afd969970c7cc30eafb54ab9d2675f9f534a6b71d, 0x50f545b347229e83222f0a5853e062543576dc922ac0d0542ca2d95c477e951, 0x433154ebca2569f358a6f5148d59586f29acf5fbd4b720d1e771104b5582091f, 0x161480b35105b7b5dbef9292b2d751d93397dcf5eefa0745a32a2b902ce01cf1, 0x71465022b143ad8718e4354334bb6c1edbd832a2b2834f2671dbeb0964f5fea8, 0x5f3498c751be41548d011fd75d992f9d81c0838e9c4f9b9614fcb5d2489eed15, 0x591aca22d1beae0e85a219f496413a5bd4bc86be5a864ebb34471816e28e94f5, 0x10d9ce03bda7d966970466572300486c53d7ebd8adb10e8d3f4cbe33c5950e7f, 0x767b0a0d5f49705e20024ac3f80cd548d2e592223c2922238db3c3140a7666a, 0x2785f0e96a735a5250310eec7fbffb5d312926d29736d3c97e23661cfd2b3be0, 0x47ba2a2db495e5f844346e309d1ecd783a02326c7294b2cf7e00a246e9ccf809, 0x30e3ad5104bed4eebe1b66f1f081f2657078eb0ab58ebb4b2998a63706187790, 0x6209442db05eba8e7b8d72aede73f079c7f0af795b07aaf2a1a5291638613245, 0x468aa8c2f950ce2e205e1976cc43eb861fcb04eb59f7a93e9a3e2fef0cd43250, 0x32c1e854f720e2ad63a75799a25ac20f7016e69b2b977129ba14964f38100b75, 0x19218b44ac44fac2dd34bb1c01ea4dad209d0006ad191697b5746359a32bc09d, 0x2a07d7855489f9719c4c0ccf8cbde49839a76e0d28cb9c22d22e6dfc6a2d52ce, 0x357a0a66dfcfd07c41b28b18c0693da3f602ab67a7824e938ca65a5b17f6eeab, 0x31b96ddf1502e4d32fa2fcff96f4543751b46542345105cfcaf51e25d7c624fb, 0x2ba0b6d37a4163d2398a2d5de05f60eac1ee5554933c39d6a01511a4cf8e6814, 0x7563f45a3b2b1fea76d9f83813dddf5e3a719aea44ead8a633a8b3d2087e409, 0x3d499feade2adbba4736ec6aeca6acb27e06d8e0f53ab9a33cdf8c7480ab1c42, 0xf75be3feb6da99af0f8249e57db245df599ad5d8789230989790f84895db6ed, 0x54e102bc8b3ecc9057897f3569c68d3b3bdb73166f1b65f20be4478df00ec970, 0x5253ec9b530de36847c6a866e16351daabadab2b655e2368f35795574dffa4b6, 0x136545c59f146563071042efc7082b4d12fa8dde12118f4054ccee023028b493, 0x71b0bc4311318f041f0ee9ba18d51247fe6c7346cde2cd4dfd4a6e0ebc9661bc, 0x624a093c496c608c13e5f89bc329b4efa6158e6442e28cb1919f6fb9a6038784, 0x7370a35b21b0e92e34e5673a6e3f14f227d7f2586706f553045310b9e1001165, 0x41a9a1fc1c52539bc3bdceedb8c43fa5b4a5cdd2557747b3400708ce68da486e, 0x460f94a1d8259a3e6d25c2009c6be3ff16a8f9a10a828f697fff480254b2f93c, 0x564cebd9d72b0880ebb7b2b7c4e13a4b81a803a93ea5a6cffa1e81d9f844939e, 0x16284199ddac3b1159f33c1b1458e77575941ddd4bd119bc9073ddc1412eda15, 0x56822eadae3de3cd620e994ebf910edddc58a9b4c6624f3aec81ff81381fa70f, 0x29712b7a8be9238dcc4d4c267a7af16220b4b15cd797780d276d8785ce265bc0, 0x3b24554c1081a52f59e0ef72d5ee28e94896ab98fcf9bbd7d0ec2d1706dc58c9, 0x6082a3a1041aee94f4832fad65b5dc2f207f57ea137618054572c839534284f5, 0x1a3db946e4019cf7b114925efad97a6c45b6dd5968de19fadcb646efa07627a3, 0x54a5e7522e33afd22bc613ab2f391042c0a7859c97c4dafced25c7c58da72f79, 0x27e299235177ee5bd1a52e9170816c03d2b67e857807a14f23283897a6e9922, 0x1e7a5f53e17162433b7b7dd1e3371594856a97a5f4cbb9a46ddc4ed43ebfabde, 0x50d35d363ee9387b9b537140747434178ea093d8c4d0b7732a24ec1e73795209, 0x73917e86bc542aa6cf55e2473947feb37f76396a1ef9d78d3c4e95eab67a46b0, 0x3b91f143ea1501b4a7e33646f37c0ad547a81756dd2c3f13a30d592dfd51784c, 0x3da99329c3b2fc0d9dc4d114e0698d03a1e13eab53375f8998d57c4a9a7faa74, 0x696592d1cb6aaf6e4504807b4df97e1e21f2c898ffbc6e9c22686412abd21723, 0x65d6c62447344dfccd0f5258417acd07c66cfa257ce4fa3ad0aa26e1f6874050, 0x5ef17d011991bab91c3a573faa5643e71bc29fa11d2feb1ac392146229506619, 0x2dba49a2ce37b805fac676b3d92a148311929b084e4e13c614e5205c329dc84a, 0x50a128bbdd0943f29996f28b3c5f065531abc8daeadc6bfcb71b912f2d5dcdd9, 0x4ddcd98762e92eda456c00a34d3b0aa5a3d2e0e14e074b542e10f847fead6051, 0x440c4df491cc136cd045ca585fb3ed32951aeeca180f3b90633dc0ff35cbe3d5, 0x394ca924e9293602234686382283e79134d473d46f05d3a2dee2f4d2aa42e775, 0x2d5a6bbd7b44bff7a99d0b6a7bcb3f2f4370ebae59127d792a9d898d81ddf069, 0x11a199917e4db01c835fd7ecd9e1afed05f1882cb955d8f7984939960cff0506, 0x20cc6feb8d44a69a3d091e2a699a28b34ace1823651565f07082dea1bd32704b, 0x5ca9c24b1a2f8e250da2239b1120163e66bd2e73b3e677248be42bd0d1565c2a, 0x70feb0e8158171ad2576247b98ced8defaea0ad59c0eea1ec9cb124a24642258, 0x34669239ab1dcfccee8480aa682a374cc42363bf71bdc9ba57680be8fb7c8d52, 0x13a4bd94b7e232fd56e1e3bc93bdf5e0cd457c890570c03f6fa19faa8b57a09d, 0x6df4b361274aabb134f8883c3c0fffdf9bc70239d020427ee196cd78b09eed17, 0x5c2f0b04c49becae9d0b2499c07f2e45bedd692f89ade1ef2d397908547f3a7e, 0xac4789656b9ba7dce7d2d8261a12d85f52db08225755fe9688fdae6e3473894, 0x321d0977c13c27a4f2fffa48a941c6e7bad82dcbff8a04c0d1b3fe9ca73df462, 0x6e18c1433af86e48d32d8d3ce955da03707b9ee8f3de32efc3199a43da575737, 0x1532a2badddfd83a059b01e9d10e24419b3df086ca7451ad364215e6f606e08, 0x4a9f02f3c1b4135afc9bc2b798354919ec6c873c73c51bd4e71b9efc8d17358e, 0x4fedd9699311f0ecd23b89a3e45ab72363811256138b8b03a8a15a2bea92aab5, 0x6dd94cd164d17032cf19cdf480ca9d55b56afc4095e35c463b70d8a7e6ef8e00, 0x6ca66d1b6fdf38b50035853bb3b22cdcbbc43b1c8c833a5c6a6ee448c69c8740, 0x62262cbbec5931da3ee980213e0ec9a985d62cdbb1ffaf1be14167f5671b089d, 0x5ca07eaba816947cb85932a6f87a914f810fdc1bb3eef727f51cdc549c001d49, 0x377fa4a439e9a7b8418112c2b2228816cabca15007e70b4be20063333fdb95d0, 0x4d7b1943b9d8d7e764dde5d620f53451b35022366ecfd0ed4a053221d16d92cc, 0x2b8f6dff61611b72e80e884adb1b3b4f2661723400c91b9687b1ed2c973a9d21, 0xe73607c50ee101d8dc0c691b53d0edba2161eb26eec8c6f9324f6aad097f7f7, 0x2d1230ec7672f5c73b7f3f94453a7236c83d69abbc4ff73049b869550dfda923, 0x252e01a68b800e886074c794dff39f474602699cfc55d3f32cba3d47f08e62ed, 0x5b5e18366a797b96a86c8e39cd7d9fb0af896cb6219fd53e5dfc2595420d42f6, 0xe31e84de3af3c6b07fa7db8c7d03f9de440175dee7a258c435708b47eb6b80a, 0x1aae10a9b808f56a51e7c55abf3051734dc901ad59475fef906236aedba66d28, 0xf6e19744cebd8458774e3010eff04328caf13766f259e67769a6a51e1801628, 0x67fb5279737fde0f9ee2e603ca249e67cb8ea26ffed627e02683d8cf54f511fa, 0x1a99636b01ac1298ca5ec47e78a322e4d00b10e4c400f340867b85170a9e16ce, 0x68936e3e501e8497f48f31db15302ca17a07309f01256bbc4d121f66ad7a0502, 0x42edc079220ade22ed3a2ad91c0258b085f3b802fdf631d5a4e521cfd307660d, 0x524c9cf229ef60d66b58c41f843963ffcf4df6ecdf201730a472f9ebabe60a0d, 0x4007e1ad17b5c153297add8813ba396d90a5d77b0f123c182e693f5618763f03, 0xfd8ce4f3788f70f780113799e080374f7e1d6180d579a5e8418941561d90518, 0x5559e7261e179366751ca0615dec930f8ff1d348c7be3c5356c6181628cf089d, 0x3b8e7f75aabe86e0310b2fc34925391854b532f167bfaa60baf8526b4f145296, 0x1d715526cf2e9dba9c7fa34f7455ae3a1046e8d18a1b79e99dd84f54609cba91, 0x4fe12da7c6bd88b0df3c93628e0d45dbe5a44e358f7589d272c7303744973d66, 0x5f30b26b76c0e972d6418ca9272ab316830378b1a0dec68c0bbfaa54a73e0ee1, 0x575a39315ba7a171459b610634959127a7e11f922b77601786be5c1182c712b, 0x3421d3a30d2a1d5299f821110ddff368dce520adf52837652ff237bfe883bbc1, 0x61c0d77ad2dbcd44b092517096bec0fe615dc1beaaba24ab6f3d1fc7d0f9705b, 0x43d6758f0345c6637ba4f580e9562e82b91d770d19d1a9560b9c047d27544f83, 0x43563904da8da0550404784e76896fdb7ed4e06741157515eef811efe5481602, 0x1772c6315d1d33a0f80157d7dff75e883ebefaf5c9d64f8e8d65c3f1b29f5e45, 0x726523435d5d56369747acb7e6b61c55ebe329de6a3d66149bd0f82fad045ea6, 0x165d4c35f45fe658691dcabaabbda7e645cdb046a4bd5af40bfc5b1c069f08ad, 0x5640194d04674cdd4a7394b8913afb014f362fbc253221a811dca2949b747460, 0x385892f57c0f360cd095c21f6575237802934f41b62ed4a8a6e069a42f732606, 0x3055645251fcae3b9d5528d2baf4eae78ac99bdcadbddc999a1f707ed598cbe4, 0x3d3c903bd2d3ee86daaa3dfa91cd938b33f77be6417d46596c6035d025a87e0b, 0x246da18b42120c6c57fd49fe2883b18d5d739e8fd96792bee931723dda2a4d7f, 0x22eff731a84ced03e42d6e9af57f37c6b91fc8a13a6a91aaf8a4b203ffbbc9d5, 0x715c71e119e3efd4c97d8fb509ad3806289952d4982943d39f950d7f060f3a6, 0x719abd347bcb9421b058424df3b1baf502677170e6573c0902d2b29941e68b55, 0x23119a282a954a03dc2186cc5045f30b7590d536a2124d01541756738742f8cb, 0x3f42627e0898cbccc8ce41ba416ed2380c9e2906be2bcdfa30140be937aa9e79, 0x6efed083bb2016095f5ffa661bac364829eef90b7e9b73ebd6f465d453078490, 0x4645a4a4574b7e072e9544e0a46e4417653cb4cd86f2cd86ca40050f759d8bd1, 0x2e0251a52fb8c3c51acd5ccf88d36a6c294e940f965d6f37eaa0841749d5e367, 0x6b09369eebe086561936b30d61e10725560b920f2ab2dc93f18dcd05af64deb6, 0x10d09be68bd482b1529c6f59b5bcec4b10ff8e1dd7788fea933c64da7f10eeb7, 0x100fcca58f4f977fc7e635114109df4c262eb262dc6fcd1492ee29977dab0382, 0x117628246e163db1aa11bcbae03f2fcbe8f594c4c1332365b48f980acdd1fdb5, 0xe80d089ad0ae6ada89eb4b41097283781fd9c917624a4eff7609acf549972eb, 0x5674709e2c796a76e2ed0e93ef5fbf50c564ee6bfa54a3a3774f4519cb6e8a11, 0x3509b703ecb30c5e3cd329c068e5396fb6a45cc6ee257f4d6e7519d342ffc11d, 0x9431468c36a38b42ddd7f79236f5b0df99d6f131de2243dd31bd95ef09f3d91, 0x28b3127e6293023baf58706a38a99dc1498fe5b27445cdca5f45b49476f3dd04, 0x4a9728ab56952e8b63fbe2ef8ba75b20e6bf692733cebe7b8a7f13237a414575, 0x4cf5e430110442fdec67f69f5e93a6a57dce1288bb5e82253b8dc47eb9f210e2, 0x23209edc83e1c217a2e5ea1e1e4dcdfed30bb35cd8a292492ad09a2f5774dc09, 0x3b735bc69850552150a519c6d5929bf39a44e1adf6c485e75afe058dbfbe4c87, 0x6b291ef31ecc5629161a8b9d142d3eb652c2d6a30d6a13d305de8bf3ea87d56a, 0x4a084aaff8e42efb3b44a0f2318f72f6738cdfc147d382b7e0ef609bd5d62ade, 0x8273c056838d663cd09ebfa0e99f0566d4413799c2de9439dab4e6fd779a9fb, 0x1a935136c7756e82364354188db2645eb21bfbd0f96994b402d3dc0607d30b9e, 0x5d585eb2a6fd5972eada418f9b87057c97287b471adb12cc5d23c32be0f80e1b, 0x5ee72a33130e84e8956057bd93de860c2231adb752824eb1f7fe92c38c75ac67, 0x24c49d5307e091ba19daf2e06f859f0aba8fcbce935310ef32569fff47da3b60, 0x4f26cc29a00f87357550d542cdcb7dc21e1c9fd31add2dc0f2984ec31bf276d9, 0x6f0512d15bfddde2d90db9a1a9d32b3362dc8cba0d33794a387df15c2ba8ece4, 0x167d6ff78b0dd3262492e2cb74b30049f063ab82eda0250d7455f676b567f520, 0x7358a611f87d613fd175dc238856c6d4e20d4447166c3c30adf1c6b263eeea9e, 0x34af9ac43acbf983c1bbfcefc2e7f9384623ac101cc399c07aed790feca239, 0x721ef124993f8ca44c1bdf734d4dbebf14418339f4d1db1f37cb2410fcca86df, 0x3285c361e5901625a9c77d14ed865dbf5b716d78fd363f69dda6e5f9738f92b4, 0x13fdad28395af95a3089be33f60c8e911677a0ad987c107975c88ceb38af5d80, 0x58007d564d93cabedc725a0bee37ca58ffe2020077be028fa001795183f1a6bd, 0x1f49ae79be40c359e3eea5495f8af3bc8cb0366d02fa09a71ed16320aedb18eb, 0x51cf14e7e5af2d4426108da66b29c3ed453c416b7b69fc769000c4138e1ff241, 0x5db1050316cba12efdbdd8120fd62f666e16e7768a5a9f03b79e353e0b1cf1c1, 0x2f98ba198ffa12e8b663946eb11d326c925c8a62088f4af216ed8deb96652bbd, 0x4bcf9c33a53bae5cbfa00adef069415d1509290319e8cfe90b78223363e3a24f, 0x146b60159500c048f93db7ae80a6140ce0bf97dfbe945b8ff04403052f9b79fc, 0xa6379860f054809893e98fe7af0b83e6653ab2053dd8437232f93ff9217f902, 0x14d2095acaf39ed2beca7106563e9302a2e6a28bdb8e644b8526b95310dca6fe, 0x2a99a43222506e32f43855f51225c9eb470cd716a5c9609468fd31fce1572a7a, 0x1a6d176e903473cb8e6430d587f80bd4647a41b873a2c7bfa296ca4ef976d5d6, 0x57fa795d90dbf53ca04ef66c6f4755177486d6fc1ecb18e2165908e827af74d7, 0x558c1e10a9d68b8d79d49dfb8f94bfe959dc1c0385cde8e8ed93dd3cb6a6829d, 0xa8106b247742884455583530aff29fd0bf3d9351e30f84ecdfbf559e3991626, 0x66ce6d23232fd8b8801990fed7ccd198684cec602a3db338d40c88dffee59c4d, 0x33e71139ca1e50c0cfaab18118a8ef980a5ec028ce8b211863ab852d752a4813, 0x4d21d577d43fdfc8d07f85776a65a128496d29049e11f51a50db3d4742237206, 0x3a8ec5dbcc0029688f89ae48aa98f7a3587360ee2cb34398529e69546bb096aa, 0x553344040dd7cd1f7cf01e54e6fb877e631746fc812cce90ac5ea2a4a06800c0, 0x42c43525f8377351a7db2675a23e1f0a17be08baab10ae7040b2281d093c2655, 0x7f2862db635049960c456608ff705a2752e938e180cc2238c526b75ec14ade7, 0x19bec4a404cdf4465dde82c1032bab77ace25b31db1e48cc723cb323f840da8c, 0x1eae5cab312460f72178661eb25fb071cd71325d09da903ccb32f429d5f5184f, 0x45823eec07a7f5bdf81a5c64780d2a64d6237241fdcc58f6487bd6b5fd5d4572, 0x4913f7a029b50aedec916d40736d108f74d62e083e0a9e0ad300b9c876122c5c, 0x1b7958272b2c07ceb504831ac9d8e99eb2ef5e3bdacbf08912a44221080aba6d, 0x12c12054c1376f392839bc7c8b311019c6bf52bfb3a3a48522ccae8fb64c9b3b, 0x222a9174810fe18b8f31486ea2fe1ec6cfefb94768af872946208921801bf345, 0x1a65f6111f23107111f431fd3d1eb839f0ad45e3273f46d0e195787dbba703cc, 0x37eb5ff2591d59d9c184038f40919ba400974030a32866546ede787993c23007, 0x5a5027e31eaf9683bef88fc8c62ecfdc4cd40a6c60224dca902dd42a6b4334e5, 0x6b85efc7e7896a35d248cf7c3bdb60bf89b7b54007098b35564e59c1bed20078, 0x11b2514e4fde64c2fa7456b7fe7b334cc81fff0eb89413aa81b72866e9399f67, 0x457975284073ca8bd30bf579c1f2039a5658a925188f6c4bef39f929047b15e0, 0x245c6389573a3e18af3ac2cb0326c0d296e38ee5db2a5b04d808457f830dcc97, 0x5d6e49a92c349c92f2a59786f717e547503f5cd04c46d32a2fe899cd07236ee0, 0xd5da1546a4e69bc5e1c2bd13a79b65f196c9a0f155512724a0bd8ba78dd78a8, 0x509b79d6b92da86fa7e84842e0275b287ee5aff496cc391fd3762e779c6a8d76, 0x491e7c28b480fa590b0d5ff8b2ea5677a6a1f60e67ef30addd8c599902112f50, 0x4a019e76584be228d5e052e6b8ad56f52432a11291067beb3cbf4b8544d4a175, 0x62fadbb15c102d2b66c954070b8b0ca897e396e7705a340ea7162d919cc185f9, 0x1bd670fcf34ed5799e330268c562340244b14029a6e3c07f3c7bf8fe1a91da73, 0x3480130e576ad254a2ed489a425b64c6f8dd919435ba554d19003a2f518a814d, 0xf6524ebeb612ed5773f0e089d586276d15ede2165ec15d71468d3710bde95f8, 0x16933d5ae3426f72ddd56acdd80d000810a72f63929ae967e6b44c80b6749673, 0x3ed5a4670b113e05ac71f31eda3031fdabb6e75d993b276bc32b332379aed1eb, 0x67fd7cea9d7ee6e5c56a8fa876e32bf63c8aad70523133ac2e732ea7c04c1f1d, 0x2cf8991b2ec32dc954443c635d0a6d3a50afa960c3408fb99c3e8a7a8b939199, 0x15a81060c528d90ce02da2480347637baf778b1dedcdde71730905c6623a3263, 0x522ffbb6d2d29082e30c7ce9426b019862e09301fc4284f247cf43461d66d304, 0x63d0a1b6635a2cefa4e8617309f44bc3905337e8520ea7df715f648a7c71db62, 0x309fdd1b579691d775b27a53480673b92f98ad30d5fe9239e5a57e206dfa87d2, 0x13b5ad77cdef4e5a9b6d31dc2bce1d8205af574aed65939fd7ea6d2a6a7bac7a, 0x501ea7d2ecb7262e2074773e1a675e2e7f9372b218dd84fe703b550cbdb33263, 0x12eaf633438acbc4001a0da140e4fdb93ae71653c1d6e23181895792c9b047ee, 0x1bf7d17572fb76bf546df0585790f9e3e264b420382801b6cd46f8090ab803b4, 0x4ca95b05b11515fe5284233c7e4f3933dad93a6f301e5b8693706f16aed39db3, 0x686269a3d8cd306fc73d73863d832905091482bb47d949ffe29c9e85e2c9f39d, 0x47530922badc66861f246bf97cfc224d502358ea99ee6e1575594eb418796c76, 0x157ef5f4fec906d76f47c7efe6b34098a290817a733a1ef053cb1aa45b359ce2, 0x3c8bb8d3144f554bb4790bd049ca9aa74dabb127f882e9c2c8d6066891026477, 0x2f22540704445a4ceaa186e23e3ef9e5286b980c873c36d726ace62b5eb31795, 0x63c0ceb0693410f30149dad9a38354485347d1872aef01adaa531a7f2616e3eb, 0x5bc2f2cdf2a4ee13185a905e0d594f6836e3ce70828c7c32246c29bb1dfbcc5c, 0x55bf05aa6c5cc8dd4d94c998d35c92d763360400c06034d68336d02429ea5bcf, 0x65fb4d8b72a14861f4bd48117a977662befd6642d7aed1b1cae5fb02cb83337f, 0x1caca38a523c5141d86fc57b03583a0c5b8f9f0d8f4b90b93b6a4d7a0999138c, 0x315f9fe1c138feb7df0740845da56899c99f8db72d824814c5e7a4facfecb305, 0x201e4f060803b9d0de5f303f156dac81695777f4dc5942c25a2a9c8dcc1bf901, 0x3e9dce2a6775312a5722c3d9b82922f318519b32d829b1ff749be613e1a706f0, 0x201ff3a838d984a580d26e30fe392401b5f58a9f732c595f39ce88a491a0148b, 0x25320b11080f9ab192b3d6295b467e170984d15834ed1e189412b83fa2b5d1fe, 0x4e952a2a5e24f0efd967c6b0930bc41a38e8e95663769e9672478551666db76c, 0x6f59e272fe6ac7820134c308f94f8622493ab77c9916b73a7d5deea966dea51a, 0x5a231662ee3aa6beeec02acc0c4ce96dcd82ebade318d9f65eee9109218aa923, 0x5378878ecd3b0ce7d2983f0c81c28a14615f01eee243a20658a045996c775a2b, 0x30b87bce6e4de87333270e4bbb4521b0f5b01cc486997ef3c4e9af46acade982, 0x6fb44d8675d37947d5dfd8f9a53b934a96df6e13115f42ebd6d3346aed9ca06c, 0x3fd8f3a498d7964fc2350f8d228d7b302f03610cc00a027b96a2c5a9e6e735d5, 0x1455754776c5eaaa15a5f3dd63a2f7f4c593354f8a81bf30c9d83e5cdd7bab9a, 0x2462907a64be254af9b4419b8aba075992aa6c7f267b7df4caabd57f1c4432e1, 0x4582af6532ed1724dc55445d64d0b94277660fa6e3f5ebfde8f8aac395ef4d91, 0x45153711b933898c57effa49d6935f00ec22f37fff7226ffadafd0e374c32926, 0x3a868aee3328d63c8cde5591b34cc90d3e915a905c3a4f0a6df789291bd4661a, 0x6edd39095063905c81de26a096b992fa9a566a4f9ddcc7e61fc45077086d9623, 0x22aa0e1b7a35599d049fa4a566f44c99ec8bf5f58aeff64fb8c03a704fd098e3, 0x2ff6072d1e5c325ca01eb9e99e053c46d274bc77422e8eae2b7d1f4f42f9c088, 0x21afbdd4a89c3f5a02cc4d5bec703ab0a8483b53a5d8a360ee4fac1aee0a51b2, 0x2840e7a5e91a44a1dd1042b38e0eb81ac0497f6b87541b89a96d2a013122aacc, 0x1dbe6591c9613228197069afb93cd6a3f7556b36e7753f88d1ce166ded4d084b, 0x40739f3a0a2cf63936e2fdfe4caa12fecdfda3b65d0eb138bc2d9eb37487e19, 0x3c2b1e134a2a36462a2845ede53a21bdb639e8a81968f9cd7e1341b457af4810, 0x7052993dcbe6eb515d49beb83a4eb9c15c682f6f7583ef0f255741a33930393a, 0x159e851d16aa90dd5fa6ffe1d7b34ae93aa0c41a8dff2b717c9946f43b7ff6c, 0x5dd50933b82d889d1ce1360552b1e14090936c753868b0a83bdf8c72aac43045, 0x258a580e793117382d518de713bb03cc271797e9488105bdf98e23492a42f05d, 0x48c078760d8adf045a33c3f0a90b1baac8a32b5d61ed9a7c821c8ffe8b99b1fd, 0x179751aa8014bb5046f74d625b32a5df2eee4d77b9a5406c23074471a2577419, 0x1c0bc4215103be6342d99e3d1ef152ff92d25ed4f29fd99c4997804b7ff9afa5, 0x41cb84d6b29a1fbba5d5befb8592b8beb183b0e290b140e4e0b4730744760b3f, 0x5fcda55c4cb0ddcb75da954c684b539d80ffd6d852492aad321a5e0f5837be0, 0x3cf820afd1bdb24056da42b41f9240f5775ddb485edfe705316de54e3c693136, 0x12d4812834d49151f3742276774f8f667e8bad3d48059c56eb9f8d1a540a168a, 0x739b447d0ecda9ffa8079e5df98f343553172ee793c097ea143f0c14cd371acb, 0x2e481234f4f392baa221e35a7344d2c5824352a7e638c81c330c465342bad5e, 0xd149625f95a360ee6dd8156b717e43be7256509b424ade7d2286ed6e6634497, 0x4543ca937ff30a73db73c95cf11b2f641c744cc5d6a08d197c29ea4e2aab6a16],
    M = [0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b]).* from "../poseidon"
}
