/// The published table of the aLIGOZeroDetHighPower noise curve: rows of (frequency * 10^20, power density * 10^66),
/// 64 rows of two 30-digit numbers per entry.
module noise_table {
  pure val CURVE = 4
  pure val ASD = false
  pure val ROWS = 200
  pure val CHUNKS: List[int] = [
    15917040221839090600000000008857273223423078434000000000000016070337316623996780000000008650511484090282011000000000000016231367301728744320000000008448576333683168116000000000000016400698262039283200000000008251355101643186174000000000000016579907698216457430000000008058737747562180687000000000000016768846275805614350000000007870616799784880868000000000000016969373267989506260000000007686887295444657298000000000000017181318970117040240000000007507446721899034969000000000000017406868447144361620000000007332194959532350254000000000000017647268979699657300000000007161034225893585869000000000000017905490289911903500000000006993869021138253572000000000000018179953806340585530000000006830606074743845113000000000000018473737671557823490000000006671154293469183472000000000000018790709349990455610000000006515424710528525054000000000000019131038913369931620000000006363330435952208575000000000000019499394425941628490000000006214786608106017951000000000000019895935069417569190000000006069710346342291274000000000000020323090418538238400000000005928020704756301029000000000000020790501542616481060000000005789638627022161188000000000000021295334280894855010000000005654486902283019845000000000000021845020772559615180000000005522490122070935570000000000000022444211342051647510000000005393574638232409768000000000000023097989421745151830000000005267668521836103679000000000000023811893630437353990000000005144701523039773861000000000000024591936192471159170000000005024605031894083140000000000000025444616180463059960000000004907312040061404446000000000000026385593154947449990000000004792757103428237997000000000000027415830974263029910000000004680876305590383168000000000000028543704384271653940000000004571607222190525732000000000000029790459460414660170000000004464888886088301945000000000000031156225733252894320000000004360661753343433134000000000000032667095011619454120000000004258867669992929450000000000000034322151810516432050000000004159449839603856702000000000000036153291512361637490000000004062352791583514744000000000000038180415512642173650000000003967522350229393879000000000000040425555014595010610000000003874905604501618228000000000000042883992693553411070000000003784450878501023396000000000000045603925452844649640000000003696107702636341230000000000000048650545144910535150000000003609826785464509413000000000000051984828934580409580000000003525559986188298467000000000000055672998068105463550000000003443260287795941821000000000000059805514885762929710000000003362881770827817718000000000000064320127414334696640000000003284379587755474006000000000000069376781708469698590000000003207709937958782831000000000000074969489542014113660000000003132830043287189881000000000000081149964127814822700000000003059698124191464075000000000000087973220309244023620000000002988273376412640303000000000000095613574708352921380000000002918515948215095790000000000000104047050296506531500000000002850386918151116333000000000000113493012853847059000000000002783848273344515789000000000000123913749246132541100000000002718862888281180545000000000000135390481609189295800000000002655394504094748953000000000000148226656867607266200000000002593407708335816153000000000000162595698018586603900000000002532867915213417476000000000000178408275516343579400000000002473741346297734012000000000000196093642184846247900000000002415995011673283699000000000000215517050258508553800000000002359596691532055601000000000000237211456006309577800000000002304514918196342776000000000000261454396661114663800000000002250718958561203920000000000000288012686774378303200000000002198178796946818636000000000000318249885015412306800000000002146865118351100676000000000000351371822816406286900000000002096749292093271677000000000000388326210873928558000000000002047803355839261741000000000000429561425769599875100000000001999999999999999289000,
    13841604205243119900000000040163203197667348830000000000000013749166468605767980000000039225644477183720940000000000000013663376026532161750000000038309971868473360250000000000000013584016415598929180000000037415674468188922220000000000000013510791483047377630000000036542253299369821210000000000000013443426109360385260000000035689221033035659050000000000000013381737605229601940000000034856101716279260930000000000000013325477586750287000000000034042430506706517690000000000000013274479852766650750000000033247753413075844260000000000000013228578668154966770000000032471627041991786200000000000000013187556865835446640000000031713618350511762860000000000000013151263946292392160000000030973304404528022360000000000000013119507796025684800000000030250272142789856390000000000000013092152617711277160000000029544118146434266240000000000000013069031117529537320000000028854448413896676580000000000000013050021890636559400000000028180878141076311750000000000000013035022725087189130000000027523031506632895570000000000000013023849739506361500000000026880541462295821020000000000000013016429046211629750000000026253049528067805340000000000000013012627047772427150000000025640205592209696310000000000000013012349137357520450000000025041667715893959210000000000000013015490820646013990000000024457101942418668730000000000000013021964767029344810000000023886182110874892710000000000000013031688797946979380000000023328589674163782770000000000000013044552085051903660000000022784013521262068020000000000000013060515639918065240000000022252149803636160640000000000000013079510068080516620000000021732701765708776520000000000000013101417396649877260000000021225379579282852660000000000000013126250290555725940000000020729900181830620910000000000000013153892626145556280000000020245987118557860640000000000000013184265124542221720000000019773370388154603460000000000000013217436312177597690000000019311786292146967980000000000000013253282966568008980000000018860977287765314260000000000000013291739731939001180000000018420691844247326690000000000000013332837805599088320000000017990684302495327530000000000000013376530747800065500000000017570714738009712620000000000000013422769811261245410000000017160548827022114440000000000000013471630119758477830000000016759957715753543540000000000000013522949939633711250000000016368717892724333750000000000000013576818632329998360000000015986611064045106900000000000000013633206797088025080000000015613424031618734490000000000000013692250516397128640000000015248948574185524760000000000000013753771935498707560000000014892981331145415420000000000000013817736975813518450000000014545323689091949860000000000000013884514156439938780000000014205781670995227730000000000000013953709959267325230000000013874165827971492600000000000000014025742818020543870000000013550291133579449370000000000000014100654463776793170000000013233976880583881550000000000000014177973399518930220000000012925046580129389890000000000000014258478122761823910000000012623327863267667230000000000000014341977250638873950000000012328652384783472940000000000000014428527495608799940000000012040855729265821590000000000000014518190152415781860000000011759777319371610820000000000000014611031042690379220000000011485260326230915950000000000000014707491276534207090000000011217151581943623740000000000000014807714897774268820000000010955301494118737080000000000000014911859384104828500000000010699563962408755910000000000000015020096383859199660000000010449796296992285250000000000000015132612326356413420000000010205859138959750960000000000000015249608847676202150000000009967616382557417865000000000000015371845044094096970000000009734935099246710877000000000000015499085713195029470000000009507685463536115833000000000000015632207811571808610000000009285740680544518000000000000000015771616351064693850000000009068976915255510107000,
    66780644128167862380000000182119581321180908200000000000000064163112119343390370000000177868232124799647000000000000000061666810516833148980000000173716125249636434100000000000000059285766192311737050000000169660944010360322000000000000000057015969468867418100000000165700425801702203900000000000000054851292999077807640000000161832360836026055000000000000000052786992320401034980000000158054590910367301100000000000000050819038598647110130000000154365008202255830800000000000000048941991761104982790000000150761554093646350300000000000000047152697110155873480000000147242218022305178200000000000000045446602214146860470000000143805036360007352400000000000000043819846739140906830000000140448091316923228100000000000000042268729855276002480000000137169509871579134600000000000000040790161040017126990000000133967462725796872300000000000000039380709748179240130000000130840163284030109000000000000000038036656044346920790000000127785866656524831300000000000000036755734484539156460000000124802868685752037000000000000000035534904001704001440000000121889504995564698200000000000000034371255473964858220000000119044150062553376300000000000000033262007056818102970000000116265216309077482000000000000000032204884394368668130000000113551153217470869100000000000000031197318759915903850000000110900446464922902100000000000000030237223019195368460000000108311617078556764700000000000000029322585445344241840000000105783220610229818700000000000000028450770416589153600000000103313846330597539200000000000000027620642082475270150000000100902116441991984200000000000000026829406268325714880000000098546685309672875520000000000000026076051586861586960000000096246238711026035160000000000000025358302798920533120000000093999493102286544400000000000000024674932449750909200000000091805194902380821990000000000000024024141002715419860000000089662119793485589980000000000000023404509000149926840000000087569072037914327210000000000000022814387041740934560000000085524883810951132550000000000000022253040816702985790000000083528414549257308860000000000000021718647875069977750000000081578550314489984880000000000000021210282959915624810000000079674203171774922790000000000000020726527735794570670000000077814310582689370220000000000000020266287600621638370000000075997834812413680080000000000000019828755969656424220000000074223762350723404780000000000000019412906763600879560000000072491103346496777250000000000000019017295526142250470000000070798891055422961930000000000000018641690246370503640000000069146181300603541330000000000000018284733340732545400000000067532051945744512980000000000000017945578952806290900000000065955602380647064820000000000000017623624134949830740000000064415953018707784850000000000000017318278174299415450000000062912244806150226850000000000000017028379010234255930000000061443638742711721080000000000000016753599638273788490000000060009315413520164380000000000000016493051147634095750000000058608474531897866200000000000000016246254386266403350000000057240334492838064760000000000000016012567122876635520000000055904131936905605470000000000000015791377539586959720000000054599121324316888600000000000000015582103318220437030000000053324574518963288480000000000000015384346978333577960000000052079780382144122090000000000000015197718016228998600000000050864044375784322940000000000000015021395149374785420000000049676688174913562080000000000000014855328486840318570000000048517049289192436850000000000000014698754666747188590000000047384480693272820420000000000000014551498770599536340000000046278350465787724490000000000000014413119271600166710000000045198041436767977070000000000000014283078423338920540000000044142950843289531800000000000000014161344955675978980000000043112489993159726960000000000000014047408606093825290000000042106083936453632080000000000000013940907725169281440000000041123171144718719460000,
    92858244349201142230000000219999999999999727200000000000000089033359319102605820000000214864380774330811600000000000000085384824164959133910000000209848646025166453900000000000000081905088791835895590000000204949997202405347700000000000000078586880153429712600000000200165701084525949200000000000000075422525040373345650000000195493088253574865100000000000000072404020949059980630000000190929551605754613800000000000000069525654126907082040000000186472544896777776600000]
}
