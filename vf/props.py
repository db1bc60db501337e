PROPS = {
    'C01': dict(driver='editdist', judge='EditDistanceTrace',
                models=[('EditMachine', 'EditMachine'), ('EditMachine', 'EditMachine3')]),
    'C02': dict(driver='clustering', judge='ClusterTrace', models=[('PairwiseMachine', 'PairwiseMachine')]),
    'C03': dict(driver='clustering', judge='ClusterTrace', models=[('ScanMachine', 'ScanFuzzy')]),
    'C04': dict(driver='clustering', judge='ClusterTrace', models=[('ScanMachine', 'ScanLeader')]),
    'C05': dict(driver='clustering', judge='ClusterTrace', models=[('BlockMachine', 'BlockMachine'), ('BlockMachine', 'BlockLive')]),
    'C06': dict(driver='clustering', judge='ClusterTrace', models=[('BlockMachine', 'BlockKeys')]),
    'C07': dict(driver='clustering', judge='ClusterTrace', models=[('WindowMachine', 'WindowSnm'), ('WindowMachine', 'WindowLive')]),
    'C08': dict(driver='clustering', judge='ClusterTrace', models=[('WindowMachine', 'WindowAsnm'), ('WindowMachine', 'WindowLive')]),
    'C09': dict(driver='clustering', judge='ClusterTrace', models=[('PassjoinMachine', 'PassjoinMachine')]),
    'C10': dict(driver='clustering', judge='ClusterTrace', models=[('PpjoinMachine', 'PpjoinMachine'), ('PpjoinMachine', 'PpjoinMachine3')]),
    'C11': dict(driver='clustering', judge='ClusterTrace', models=[('QuickjoinMachine', 'QuickjoinMachine')]),
    'C12': dict(driver='clustering', judge='ClusterTrace', models=[('VpMachine', 'VpMachine')]),
    'C13': dict(driver='clustering', judge='ClusterTrace', models=[('IntersectionMachine', 'IntersectionMachine')]),
    'C14': dict(driver='clustering', judge='ClusterTrace', models=[('BandMachine', 'BandMachine')]),
    'C15': dict(driver='clustering', judge='ClusterTrace', models=[('NnDescentMachine', 'NnDescentMachine'), ('NnDescentMachine', 'NnDescentFull')]),
    'C34': dict(driver='clustering', judge='ClusterTrace', models=[('LaesaMachine', 'LaesaMachine')]),
    'C16': dict(driver='numeric', judge='NumericTrace', models=[('SignatureMachine', 'SignatureMachine')]),
    'C17': dict(driver='numeric', judge='NumericTrace', models=[('MetricMachine', 'MetricMachine')]),
    'C18': dict(driver='numeric', judge='NumericTrace', models=[('MetricMachine', 'MetricMachine')]),
    'C19': dict(driver='numeric', judge='NumericTrace', models=[('BestMatchMachine', 'BestMatchMachine')]),
    'C20': dict(driver='numeric', judge='NumericTrace', models=[('LabelMachine', 'LabelMachine')]),
    'C33': dict(driver='numeric', judge='NumericTrace', models=[('MeanMachine', 'MeanMachine')]),
    'C21': dict(driver='graphs', judge='GraphTrace', models=[('ProjectionMachine', 'ProjectionMachine')]),
    'C22': dict(driver='graphs', judge='GraphTrace', models=[('FloatsamMachine', 'FloatsamMachine')]),
    'C23': dict(driver='graphs', judge='GraphTrace', models=[('JoinMachine', 'JoinMachine')]),
    'C24': dict(driver='keys', judge='KeysTrace', models=[('LevKeyMachine', 'LevKeyMachine'), ('LevKeyMachine', 'LevKeyMachine2')]),
    'C25': dict(driver='keys', judge='KeysTrace', models=[('KeyScanMachine', 'KeyScanMachine')]),
    'C26': dict(driver='keys', judge='KeysTrace', models=[('FingerprintMachine', 'FingerprintMachine')]),
    'C27': dict(driver='keys', judge='KeysTrace', models=[('GramMachine', 'GramMachine')]),
    'C28': dict(driver='words', judge='WordTrace', models=[('WordMachine', 'WordMachine')]),
    'C29': dict(driver='words', judge='WordTrace', models=[('WordMachine', 'WordMachine'), ('WordMachine', 'WordMachine2')]),
    'C35': dict(driver='words', judge='WordTrace', models=[('OptionMachine', 'OptionMachine')]),
    'C30': dict(driver='phon', judge='PhoneticsTrace', models=[('CologneMachine', 'CologneMachine'), ('CologneMachine', 'CologneMachine2')]),
    'C36': dict(driver='phon', judge='PhoneticsTrace', models=[('RusalkaMachine', 'RusalkaMachine'), ('RusalkaMachine', 'RusalkaMachine2')]),
    'C31': dict(driver='cli', judge='CliTrace', models=[('CsvMachine', 'CsvMachine')]),
    'C32': dict(driver='cli', judge='CliTrace', models=[('CsvMachine', 'CsvMachine')]),
    'C38': dict(driver='numeric', judge='NumericTrace', models=[('CandidateMachine', 'CandidateMachine'), ('CandidateMachine', 'CandidateWeights'), ('FaginMachine', 'FaginMachine')]),
    'C39': dict(driver='sessions', judge='SessionTrace', models=[('SessionMachine', 'SessionMachine')]),
    'C37': dict(driver='misuse', judge='MisuseTrace', models=[('MisuseMachine', 'MisuseMachine'), ('MisuseMachine', 'MisuseLive')]),
}
