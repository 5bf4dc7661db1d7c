// generated by tools/gen_constants.py
K(one_over_two, 0.50000000000000000000000000000000000000000000000000);
K(one_over_three, 0.33333333333333333333333333333333333333333333333333);
K(one_over_four, 0.25000000000000000000000000000000000000000000000000);
K(one_over_five, 0.20000000000000000000000000000000000000000000000000);
K(one_over_six, 0.16666666666666666666666666666666666666666666666667);
K(one_over_seven, 0.14285714285714285714285714285714285714285714285714);
K(one_over_eight, 0.12500000000000000000000000000000000000000000000000);
K(sqrt_two, 1.4142135623730950488016887242096980785696718753769);
K(one_over_sqrt_two, 0.70710678118654752440084436210484903928483593768847);
K(two_over_three, 0.66666666666666666666666666666666666666666666666667);
K(two_over_five, 0.40000000000000000000000000000000000000000000000000);
K(two_over_seven, 0.28571428571428571428571428571428571428571428571429);
K(sqrt_three, 1.7320508075688772935274463415058723669428052538104);
K(one_over_sqrt_three, 0.57735026918962576450914878050195745564760175127013);
K(three_over_two, 1.5000000000000000000000000000000000000000000000000);
K(three_over_four, 0.75000000000000000000000000000000000000000000000000);
K(three_over_five, 0.60000000000000000000000000000000000000000000000000);
K(three_over_seven, 0.42857142857142857142857142857142857142857142857143);
K(three_over_eight, 0.37500000000000000000000000000000000000000000000000);
K(sqrt_four, 2.0000000000000000000000000000000000000000000000000);
K(four_over_three, 1.3333333333333333333333333333333333333333333333333);
K(four_over_five, 0.80000000000000000000000000000000000000000000000000);
K(four_over_seven, 0.57142857142857142857142857142857142857142857142857);
K(pi, 3.1415926535897932384626433832795028841971693993751);
K(one_over_pi, 0.31830988618379067153776752674502872406891929148091);
K(sqrt_pi, 1.7724538509055160272981674833411451827975494561224);
K(one_over_sqrt_pi, 0.56418958354775628694807945156077258584405062932900);
K(pi_over_two, 1.5707963267948966192313216916397514420985846996876);
K(pi_over_three, 1.0471975511965977461542144610931676280657231331250);
K(pi_over_four, 0.78539816339744830961566084581987572104929234984378);
K(pi_over_five, 0.62831853071795864769252867665590057683943387987502);
K(pi_over_six, 0.52359877559829887307710723054658381403286156656252);
K(pi_over_seven, 0.44879895051282760549466334046850041202816705705359);
K(pi_over_eight, 0.39269908169872415480783042290993786052464617492189);
K(two_over_pi, 0.63661977236758134307553505349005744813783858296183);
K(three_over_pi, 0.95492965855137201461330258023508617220675787444274);
K(four_over_pi, 1.2732395447351626861510701069801148962756771659237);
K(five_over_pi, 1.5915494309189533576888376337251436203445964574046);
K(six_over_pi, 1.9098593171027440292266051604701723444135157488855);
K(seven_over_pi, 2.2281692032865347007643726872152010684824350403664);
K(eight_over_pi, 2.5464790894703253723021402139602297925513543318473);
K(two_pi, 6.2831853071795864769252867665590057683943387987502);
K(one_over_two_pi, 0.15915494309189533576888376337251436203445964574046);
K(sqrt_two_pi, 2.5066282746310005024157652848110452530069867406099);
K(one_over_sqrt_two_pi, 0.39894228040143267793994605993438186847585863116493);
K(two_pi_over_three, 2.0943951023931954923084289221863352561314462662501);
K(two_pi_over_five, 1.2566370614359172953850573533118011536788677597500);
K(two_pi_over_seven, 0.89759790102565521098932668093700082405633411410717);
K(three_over_two_pi, 0.47746482927568600730665129011754308610337893722137);
K(five_over_two_pi, 0.79577471545947667884441881686257181017229822870228);
K(seven_over_two_pi, 1.1140846016432673503821863436076005342412175201832);
K(three_pi, 9.4247779607693797153879301498385086525915081981253);
K(one_over_three_pi, 0.10610329539459689051258917558167624135630643049364);
K(sqrt_three_pi, 3.0699801238394654654386548746677945821221293132529);
K(one_over_sqrt_three_pi, 0.32573500793527994772425641522556466971725707212949);
K(three_pi_over_two, 4.7123889803846898576939650749192543262957540990627);
K(three_pi_over_four, 2.3561944901923449288469825374596271631478770495313);
K(three_pi_over_five, 1.8849555921538759430775860299677017305183016396251);
K(three_pi_over_seven, 1.3463968515384828164839900214055012360845011711608);
K(three_pi_over_eight, 1.1780972450961724644234912687298135815739385247657);
K(two_over_three_pi, 0.21220659078919378102517835116335248271261286098728);
K(four_over_three_pi, 0.42441318157838756205035670232670496542522572197455);
K(five_over_three_pi, 0.53051647697298445256294587790838120678153215246819);
K(seven_over_three_pi, 0.74272306776217823358812422907173368949414501345546);
K(eight_over_three_pi, 0.84882636315677512410071340465340993085045144394910);
K(e, 2.7182818284590452353602874713526624977572470937000);
K(one_over_e, 0.36787944117144232159552377016146086744581113103177);
K(sqrt_e, 1.6487212707001281468486507878141635716537761007101);
K(one_over_sqrt_e, 0.60653065971263342360379953499118045344191813548719);
K(e_over_two, 1.3591409142295226176801437356763312488786235468500);
K(e_over_three, 0.90609394281968174512009582378422083258574903123332);
K(e_over_four, 0.67957045711476130884007186783816562443931177342499);
K(e_over_five, 0.54365636569180904707205749427053249955144941873999);
K(e_over_six, 0.45304697140984087256004791189211041629287451561666);
K(e_over_seven, 0.38832597549414931933718392447895178539389244195714);
K(e_over_eight, 0.33978522855738065442003593391908281221965588671249);
K(two_over_e, 0.73575888234288464319104754032292173489162226206354);
K(three_over_e, 1.1036383235143269647865713104843826023374333930953);
K(four_over_e, 1.4715177646857692863820950806458434697832445241271);
K(five_over_e, 1.8393972058572116079776188508073043372290556551588);
K(six_over_e, 2.2072766470286539295731426209687652046748667861906);
K(seven_over_e, 2.5751560882000962511686663911302260721206779172224);
K(eight_over_e, 2.9430355293715385727641901612916869395664890482541);
K(phi, 1.6180339887498948482045868343656381177203091798058);
K(one_over_phi, 0.61803398874989484820458683436563811772030917980576);
K(sqrt_phi, 1.2720196495140689642524224617374914917156080418401);
K(one_over_sqrt_phi, 0.78615137775742328606955858584295892952312205783772);
K(phi_over_two, 0.80901699437494742410229341718281905886015458990288);
K(phi_over_three, 0.53934466291663161606819561145521270590676972660192);
K(phi_over_four, 0.40450849718747371205114670859140952943007729495144);
K(phi_over_five, 0.32360679774997896964091736687312762354406183596115);
K(phi_over_six, 0.26967233145831580803409780572760635295338486330096);
K(phi_over_seven, 0.23114771267855640688636954776651973110290131140082);
K(phi_over_eight, 0.20225424859373685602557335429570476471503864747572);
K(two_over_phi, 1.2360679774997896964091736687312762354406183596115);
K(three_over_phi, 1.8541019662496845446137605030969143531609275394173);
K(four_over_phi, 2.4721359549995793928183473374625524708812367192231);
K(five_over_phi, 3.0901699437494742410229341718281905886015458990288);
K(six_over_phi, 3.7082039324993690892275210061938287063218550788346);
K(seven_over_phi, 4.3262379212492639374321078405594668240421642586403);
K(eight_over_phi, 4.9442719099991587856366946749251049417624734384461);
K(one_over_ten, 0.10000000000000000000000000000000000000000000000000);
K(one_over_one_hundred, 0.010000000000000000000000000000000000000000000000000);
K(one_over_one_thousand, 0.0010000000000000000000000000000000000000000000000000);
K(degrees_to_radians, 0.017453292519943295769236907684886127134428718885417);
K(radians_to_degrees, 57.295779513082320876798154814105170332405472466564);
