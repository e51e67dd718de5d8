SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoNew NoDouble Gives Looks Peeks Bulk Whole Kin Forward Where First Passed Local Snap Again GetPop PeekPop Twice Then
