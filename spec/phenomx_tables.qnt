/// Calibrated coefficients of IMRPhenomXAS (arXiv:2001.11412, LALSimIMRPhenomX_inspiral/intermediate/ringdown.c).
/// One packed row per collocation value: 7 amplitude rows of 42 numbers, 13 phase rows of 49.
module phenomx_tables {
  /// a row of n numbers packed as base 10^60 digits (least significant first, offset 5e59)
  pure def unpack(n: int, v: int): List[int] =
    range(0, n).foldl((v, List()), (a, _k) => (a._1 / 10^60, a._2.append(a._1 % 10^60 - 5 * 10^59)))._2
  pure val XA_0 = unpack(42, 500000003490874132485147000000000000000000000000000000000000500000000000187249057958911920000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999926595515068166930000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999985810649342859327000000000000000000000000000000000500000000004834642258922544000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999985595477208532156000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000001761591799745109000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000010495263104245876000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000002300153747158323000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000009799277215675059000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000048451485471546060000000000000000000000000000000000499999999993901451300190837000000000000000000000000000000000499999999998482172357555140800000000000000000000000000000000)
  pure val XA_1 = unpack(42, 500000010584553997647659000000000000000000000000000000000000500000000000438999509920185500000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999866787666920212100000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000082828884824291050000000000000000000000000000000000499999999978708235508102364000000000000000000000000000000000499999999998107598613086956600000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000078871737258884800000000000000000000000000000000000499999999979353378353515763000000000000000000000000000000000499999999991253591707949334000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000001543081884045368600000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000846302930450150000000000000000000000000000000000000499999999880294644045112770000000000000000000000000000000000499999999994142799907587535600000000000000000000000000000000)
  pure val XA_2 = unpack(42, 500000020892352600701068000000000000000000000000000000000000500000000005575955418803233000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999428212551657547700000000000000000000000000000000000500000000585270645948566300000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000001909931501687364300000000000000000000000000000000000499999998119409110295907000000000000000000000000000000000000500000000521550194212077400000000000000000000000000000000000499999999968556529881886147000000000000000000000000000000000499999995896218798241950000000000000000000000000000000000000500000001835343389442183300000000000000000000000000000000000499999999587240288113433100000000000000000000000000000000000500000000100558354089622060000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000004507019231274476000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000562959819500004600000000000000000000000000000000000499999999681398726655391200000000000000000000000000000000000500000000161740470361698500000000000000000000000000000000000499999999983787145408642147000000000000000000000000000000000)
  pure val XA_3 = unpack(42, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999970352664034475400000000000000000000000000000000000000499999999998359594335013905700000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999998945984549140003700000000000000000000000000000000000500000001264742555432324200000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000148646580899902980000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999998061029826610338000000000000000000000000000000000000499999303732444862824500000000000000000000000000000000000000500000301144660220849300000000000000000000000000000000000000499999973965055101267140000000000000000000000000000000000000500000000326468088512490160000000000000000000000000000000000500000161226813226442320000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999963444368234797105000000000000000000000000000000000000500000002795273086590434300000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000045840973060933540000000000000000000000000000000000000500000014329004876335128000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499998016209197903322300000000000000000000000000000000000000500002756364102416212700000000000000000000000000000000000000500000197461126566795770000000000000000000000000000000000000500000000148731849182021450000000000000000000000000000000000)
  pure val XA_4 = unpack(42, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999999451945211491797000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999658244638158774000000000000000000000000000000000000500000000387752631050699530000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000468494966726645940000000000000000000000000000000000499999999715105189279235280000000000000000000000000000000000500000000003185256363619689400000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000025295441250444334000000000000000000000000000000000499999999985328415949297780000000000000000000000000000000000500000000058694085845327470000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999996942159056608712600000000000000000000000000000000000500000001091545359549661100000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999998174387876219960300000000000000000000000000000000000500000000748037154426876500000000000000000000000000000000000500000000083122936753168950000000000000000000000000000000000)
  pure val XA_5 = unpack(42, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999936690015871904690000000000000000000000000000000000500000000041685602293535320000000000000000000000000000000000499999999994366265523937758000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000233172481278249800000000000000000000000000000000000499999999912475727024749140000000000000000000000000000000000500000000007179105336478316000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999725597361117924060000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999577774005559117700000000000000000000000000000000000500000000210908120991254500000000000000000000000000000000000499999999590866685540356100000000000000000000000000000000000500000000136660000000000070000000000000000000000000000000000)
  pure val XA_6 = unpack(42, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999995573428488654634000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999858391295387885480000000000000000000000000000000000499999986722017377074155000000000000000000000000000000000000500000007208174136362386000000000000000000000000000000000000499999999100915971004848600000000000000000000000000000000000499999999981852724848302869000000000000000000000000000000000500000003049194814393026600000000000000000000000000000000000499999999489574212960686200000000000000000000000000000000000499999999971254592809059420000000000000000000000000000000000499999999994707086888268872000000000000000000000000000000000500000008192907409500830000000000000000000000000000000000000499999995200903499749257000000000000000000000000000000000000500000000617605384393854200000000000000000000000000000000000500000000019967405175523437000000000000000000000000000000000499999999624849802733670200000000000000000000000000000000000499999999760167258038504100000000000000000000000000000000000500000000111147906765112000000000000000000000000000000000000500000000002635691110832054700000000000000000000000000000000499999995168054751058243000000000000000000000000000000000000500000002767545408198803600000000000000000000000000000000000499999999519496554625457600000000000000000000000000000000000499999999985647493030631444000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999997037114551445512600000000000000000000000000000000000500000006119874463331437000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000016252904393600332000000000000000000000000000000000000500000002541796775440118200000000000000000000000000000000000500000000003689164742964719000000000000000000000000000000000)
  pure val XA = List(XA_0, XA_1, XA_2, XA_3, XA_4, XA_5, XA_6)
  pure val XP_0 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500001201706259593483800000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000204129795536291430000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500107658773677291930000000000000000000000000000000000000000499986200862967380177000000000000000000000000000000000000000499924161343142655040000000000000000000000000000000000000000499985163150459553630000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499969685880544345140000000000000000000000000000000000000000500001829830777080757300000000000000000000000000000000000000500006219040495185253500000000000000000000000000000000000000499994152466697962167000000000000000000000000000000000000000500003261409100201101700000000000000000000000000000000000000500001970389413553480300000000000000000000000000000000000000499999782064941143907030000000000000000000000000000000000000500006766342759836042000000000000000000000000000000000000000500006838462786426462000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000446029403540443300000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500048303309980737670000000000000000000000000000000000000000499998005692357144402200000000000000000000000000000000000000499998270599999999999300000000000000000000000000000000000000)
  pure val XP_1 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000384308399282793500000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999886981451391746900000000000000000000000000000000000499999999693704217316998300000000000000000000000000000000000499999999847675025351733380000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500084748329995086820000000000000000000000000000000000000000499967457600522685715000000000000000000000000000000000000000499940636646298898220000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499960028777108846704000000000000000000000000000000000000000499994983361791272156600000000000000000000000000000000000000500015002221343386435000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500012673643159783827000000000000000000000000000000000000000500015703645676788126000000000000000000000000000000000000000500005064413475990821000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499995566858258594802000000000000000000000000000000000000000499993377106308449730000000000000000000000000000000000000000499997291063084938143000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000001853018618227582000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499944274699330107680000000000000000000000000000000000000000500116943569312822170000000000000000000000000000000000000000499987970213814433393000000000000000000000000000000000000000499999242069999999999600000000000000000000000000000000000000)
  pure val XP_2 = unpack(49, 499999870307108893030450000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500004775217032707405000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500002470328267342699000000000000000000000000000000000000000499997529189058814281800000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000252983466362733060000000000000000000000000000000000500000000358045217633630750000000000000000000000000000000000499999999032429580234777500000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499831058108750782810000000000000000000000000000000000000000499941527194938767500000000000000000000000000000000000000000500466214374141785300000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500089537215556586100000000000000000000000000000000000000000500020834945742548333000000000000000000000000000000000000000499801736761557521580000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499982504730838316446000000000000000000000000000000000000000500123527943928192700000000000000000000000000000000000000000499899469268702991020000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499986933162778087697000000000000000000000000000000000000000499979281957253013000000000000000000000000000000000000000000500039795195299014193000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000004683697749859996000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500891361250805494400000000000000000000000000000000000000000499602800194308743860000000000000000000000000000000000000000500037666564637025696000000000000000000000000000000000000000500087340162557364640000000000000000000000000000000000000000500001541500000000000700000000000000000000000000000000000000)
  pure val XP_3 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000019455545315092070000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000025294420589064653000000000000000000000000000000000499999999626147913047863320000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499961375219234197977000000000000000000000000000000000000000499962418198672652470000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500011741037432997991000000000000000000000000000000000000000500022928404542668918000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499997415693824560058000000000000000000000000000000000000000499991764413267972459000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000986163530883787600000000000000000000000000000000000000500001611605765739126200000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000041143032589262585000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500002886773328134167000000000000000000000000000000000000000499996886647829916793000000000000000000000000000000000000000500000243900000000000100000000000000000000000000000000000000)
  pure val XP_4 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000169332664429316900000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000035674395864902294000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999722934043854952750000000000000000000000000000000000500000000296564044574577900000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000017885850322465944000000000000000000000000000000000000499998569729161779577000000000000000000000000000000000000000500000353155214326472100000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000494131613710257000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999985246618191010154000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999930232260793863260000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000036124170668331530000000000000000000000000000000000500000001689845522539974000000000000000000000000000000000000500000001869417852110133200000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000184139837703693620000000000000000000000000000000000500000000011412314719189287000000000000000000000000000000000500000000000016803066316882238000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000063247313890091430000000000000000000000000000000000000500000010121991715215253000000000000000000000000000000000000500000000099517334194996620000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000)
  pure val XP_5 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000299335985204961530000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999846914926359455130000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000022477581754671272000000000000000000000000000000000000500000186290970479921340000000000000000000000000000000000000499999906362594848639950000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999946059280581583960000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999186505823282228000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000007379645135116367000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999715688897630138000000000000000000000000000000000000499999999904607495399582680000000000000000000000000000000000500000000015492808566609190000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999921883191272585380000000000000000000000000000000000499999999999544806128896884200000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999924858158213636760000000000000000000000000000000000000500000068836090872443530000000000000000000000000000000000000499999977253169774153332000000000000000000000000000000000000499999999487364109349541300000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000)
  pure val XP_6 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000051598985085888340000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499997951318683889922600000000000000000000000000000000000000500000734313097314926300000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999885077405318303080000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999913371643321942400000000000000000000000000000000000000500000189754443431381670000000000000000000000000000000000000500000041571349095644430000000000000000000000000000000000000500000115242594076421800000000000000000000000000000000000000499999863485000015727520000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999935218960230574590000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999989258900650635766000000000000000000000000000000000000500000017097203068800542000000000000000000000000000000000000500000003746221703151278600000000000000000000000000000000000500000002907178818863831500000000000000000000000000000000000499999998232828695950169600000000000000000000000000000000000499999986711582599320974000000000000000000000000000000000000500000020769898051583655000000000000000000000000000000000000500000000498475004101389300000000000000000000000000000000000500000000595010003393006000000000000000000000000000000000000499999999913873433837099210000000000000000000000000000000000499999996393338804092006500000000000000000000000000000000000500000001941671981116485300000000000000000000000000000000000500251765857517729330000000000000000000000000000000000000000500538516438040019300000000000000000000000000000000000000000500006675712830903867000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000646672583343780730000000000000000000000000000000000000000000464774257578815675000000000000000000000000000000000000000000499441802650814565000000000000000000000000000000000000000000499999991745499999999996000000000000000000000000000000000000)
  pure val XP_7 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000149338510996781950000000000000000000000000000000000000499999948515059281694860000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999875577062802597170000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000874520103789783600000000000000000000000000000000000000499999977223279792165890000000000000000000000000000000000000499999506035754297450300000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999502581082734501600000000000000000000000000000000000000499999912211885071607390000000000000000000000000000000000000500000349943239355585600000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000094169747238877430000000000000000000000000000000000000500000026992349186219580000000000000000000000000000000000000499999928814679475009250000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999993882751716815846000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000001284064952898928700000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000048183231879469990000000000000000000000000000000000500000000113665936718018550000000000000000000000000000000000500000000022814271667259703000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500001978307724702344800000000000000000000000000000000000000500000167094408122948470000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500067007754149168760000000000000000000000000000000000000000499903295072062498370000000000000000000000000000000000000000499971717960053993156000000000000000000000000000000000000000499999909325340407848600000000000000000000000000000000000000500000000042488204268338040000000000000000000000000000000000)
  pure val XP_8 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999997649509250473117600000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999933712541527517340000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999997761505091285991400000000000000000000000000000000000500000033872636669840890000000000000000000000000000000000000499999995243957941199642000000000000000000000000000000000000500000083517251036482050000000000000000000000000000000000000499999969137486335043025000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999930694958208557050000000000000000000000000000000000000500000016014971486043524000000000000000000000000000000000000499999998838511719236408000000000000000000000000000000000000499999995602667125746228000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000015395945758807616000000000000000000000000000000000000500000005859408241189781000000000000000000000000000000000000500000000491707093932497900000000000000000000000000000000000500000000577565202427457350000000000000000000000000000000000499999999971254794796899334000000000000000000000000000000000499999999478405488878305400000000000000000000000000000000000499999997474602028936005000000000000000000000000000000000000499999999973020661000794890000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000020035146870472367000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000006519048552628343000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999984499781700731338000000000000000000000000000000000500000000006099184229137391000000000000000000000000000000000500000000000685118988854174500000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000608687121481121600000000000000000000000000000000000499999999876266792619972400000000000000000000000000000000000500000000072079921749942450000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000)
  pure val XP_9 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000009160477826830407000000000000000000000000000000000000499999996333625908034629000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999927323896862480870000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999896815352272493100000000000000000000000000000000000000499999782244502064871600000000000000000000000000000000000000499999922563662126082550000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000080845733074253200000000000000000000000000000000000000500000093034584371546680000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000006442947340363101000000000000000000000000000000000000499999993700261093739996500000000000000000000000000000000000499999980899067805130412000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000001736495157980372000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000004497628581617564000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999990012455106617467000000000000000000000000000000000499999999993294456893334410000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000006469109972468395000000000000000000000000000000000000500000000942931439963300700000000000000000000000000000000000499999999053974688150361400000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000)
  pure val XP_10 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000064189657628292590000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999931375508860678080000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999936680333540745720000000000000000000000000000000000000500000010904824706217418000000000000000000000000000000000000500000000640406093233456200000000000000000000000000000000000499999997202301088707064700000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000021578111099820157000000000000000000000000000000000000499999990442197591658284000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000007383673290220580000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999998625672851906189600000000000000000000000000000000000500000001841570325463385000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000172805829893615330000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000004684937146815626500000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999959080328767926055000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000001393662141251779800000000000000000000000000000000000499999999149310149730746400000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000)
  pure val XP_11 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000015608206945239374000000000000000000000000000000000000500000002236321526143786200000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499999999862943989444441480000000000000000000000000000000000500000506417360563993300000000000000000000000000000000000000499999939170984132096650000000000000000000000000000000000000499999574602531138057700000000000000000000000000000000000000499999655697663858126040000000000000000000000000000000000000500000107586861531983230000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999989827268229499315000000000000000000000000000000000000500000149735459183875150000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999928012245159890120000000000000000000000000000000000000499999989563879763579072000000000000000000000000000000000000500000042348863373726243000000000000000000000000000000000000499999998181550783665133500000000000000000000000000000000000500000009364156367505917000000000000000000000000000000000000500000009769027029734173000000000000000000000000000000000000500000003123125320989348800000000000000000000000000000000000499999998460022923537625400000000000000000000000000000000000500000002658034439983875800000000000000000000000000000000000499999993080587096981283000000000000000000000000000000000000500000000165334176570039220000000000000000000000000000000000500000000230271200965215500000000000000000000000000000000000499999999616403264871916700000000000000000000000000000000000499999996350980793905034000000000000000000000000000000000000500000003333585745114435600000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000005020631880662400400000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000499996021648301897197000000000000000000000000000000000000000500001282826996030078200000000000000000000000000000000000000500000773206446434816800000000000000000000000000000000000000499999507424307975281400000000000000000000000000000000000000499999538325928610627400000000000000000000000000000000000000499999991413937033280595000000000000000000000000000000000000)
  pure val XP_12 = unpack(49, 500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000004382713604567481000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999999928379416780940910000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000009031815139272628000000000000000000000000000000000000499999968373029493784446000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000499999994394007595140837000000000000000000000000000000000000500000013488158268621922000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000948678312804741400000000000000000000000000000000000499999999205928768703185750000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000100000000000000000000000000000000000000000000000000500000000026026709603623255000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000500000011943820622871043000000000000000000000000000000000000500000002245528882180709500000000000000000000000000000000000500000000705731400277692000000000000000000000000000000000000500000000000000000000000000000000000000000000000000000000000)
  pure val XP = List(XP_0, XP_1, XP_2, XP_3, XP_4, XP_5, XP_6, XP_7, XP_8, XP_9, XP_10, XP_11, XP_12)
}
