------------------------------- MODULE Bands -------------------------------
(***************************************************************************)
(* The automatic number of bands of the minhash clustering.  Cutting h     *)
(* rows in b bands finds the pairs whose similarity is around              *)
(* (1/b)^(b/h); the smallest b bringing this threshold down to the radius  *)
(* p/q is wanted: b ln b >= h (ln q - ln p), never more than h.  Logs are  *)
(* integers, rounded down at 1e-5; Slack absorbs the rounding, so that on  *)
(* a tie either answer is right.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Ln == <<
  0, 69314, 109861, 138629, 160943, 179175, 194591, 207944, 219722, 230258, 239789, 248490, 256494, 263905, 270805, 277258,
  283321, 289037, 294443, 299573, 304452, 309104, 313549, 317805, 321887, 325809, 329583, 333220, 336729, 340119, 343398, 346573,
  349650, 352636, 355534, 358351, 361091, 363758, 366356, 368887, 371357, 373766, 376120, 378418, 380666, 382864, 385014, 387120,
  389182, 391202, 393182, 395124, 397029, 398898, 400733, 402535, 404305, 406044, 407753, 409434, 411087, 412713, 414313, 415888,
  417438, 418965, 420469, 421950, 423410, 424849, 426267, 427666, 429045, 430406, 431748, 433073, 434380, 435670, 436944, 438202,
  439444, 440671, 441884, 443081, 444265, 445434, 446590, 447733, 448863, 449980, 451085, 452178, 453259, 454329, 455387, 456434,
  457471, 458496, 459511, 460517, 461512, 462497, 463472, 464439, 465396, 466343, 467282, 468213, 469134, 470048, 470953, 471849,
  472738, 473619, 474493, 475359, 476217, 477068, 477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484418, 485203,
  485981, 486753, 487519, 488280, 489034, 489783, 490527, 491265, 491998, 492725, 493447, 494164, 494875, 495582, 496284, 496981,
  497673, 498360, 499043, 499721, 500394, 501063, 501727, 502388, 503043, 503695, 504342, 504985, 505624, 506259, 506890, 507517,
  508140, 508759, 509375, 509986, 510594, 511198, 511799, 512396, 512989, 513579, 514166, 514749, 515329, 515905, 516478, 517048,
  517614, 518178, 518738, 519295, 519849, 520400, 520948, 521493, 522035, 522574, 523110, 523644, 524174, 524702, 525227, 525749,
  526269, 526785, 527299, 527811, 528320, 528826, 529330, 529831, 530330, 530826, 531320, 531811, 532300, 532787, 533271, 533753,
  534233, 534710, 535185, 535658, 536129, 536597, 537063, 537527, 537989, 538449, 538907, 539362, 539816, 540267, 540717, 541164,
  541610, 542053, 542495, 542934, 543372, 543807, 544241, 544673, 545103, 545532, 545958, 546383, 546806, 547227, 547646, 548063,
  548479, 548893, 549306, 549716, 550125, 550533, 550938, 551342, 551745, 552146, 552545, 552942, 553338, 553733, 554126, 554517 >>
ASSUME \A a, b \in 1..16 : Ln[a * b] - Ln[a] - Ln[b] \in 0..2
ASSUME \A b \in 1..255 : Ln[b] < Ln[b + 1]
Slack(h, b) == h + b + 2
Reaches(h, b, p, q) == b * Ln[b] >= h * (Ln[q] - Ln[p]) - Slack(h, b)
Short(h, b, p, q) == b * Ln[b] <= h * (Ln[q] - Ln[p]) + Slack(h, b)
GoodBands(h, p, q) == { b \in 1..h : (b = h \/ Reaches(h, b, p, q)) /\ (b = 1 \/ Short(h, b - 1, p, q)) }
=============================================================================
