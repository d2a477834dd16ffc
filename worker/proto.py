"""Golden table of the wire protocol, written down once from the code and its
documentation; shared by the generators (CPython) and the oracles (PyPy).

Slot kinds: v any CBOR value, enum, msg (nested message), msgs (list of nested
messages), node, peers, headers, header, ctd, files, stats, psig (promissory
note signature), bool, int, nonneg, pos1, orlist (falsy becomes []).
"""


class MsgDef:
    def __init__(self, type_, name, mod, enc, sign, slots, nested, enums,
                 owners, chain):
        self.type_ = type_
        self.name = name
        self.mod = mod          # module of golem_messages.message
        self.enc = enc          # may the payload be encrypted
        self.sign = sign        # is the message signed on the wire
        self.slots = slots      # ordered [(slot, kind)]
        self.nested = nested    # slot -> (class, allow_none, is_list)
        self.enums = enums      # slot -> [(member, wire value)]
        self.owners = owners    # who may sign; None: not a task message
        self.chain = chain      # slots the task ids are looked up through

    @property
    def kinds(self):
        return dict(self.slots)


_ROWS = [
    (0, 'Hello', 'base', False, True,
     [('rand_val', 'v'),
      ('proto_id', 'v'),
      ('node_info', 'node'),
      ('port', 'v'),
      ('client_ver', 'v'),
      ('solve_challenge', 'v'),
      ('challenge', 'v'),
      ('difficulty', 'v'),
      ('metadata', 'v')],
     {},
     {},
     None, None),
    (1, 'RandVal', 'base', True, True,
     [('rand_val', 'v')],
     {},
     {},
     None, None),
    (2, 'Disconnect', 'base', False, True,
     [('reason', 'enum')],
     {},
     {'reason': [('DuplicatePeers', 'duplicate_peers'),
                 ('TooManyPeers', 'too_many_peers'),
                 ('Refresh', 'refresh'),
                 ('Unverified', 'unverified'),
                 ('ProtocolVersion', 'protocol_version'),
                 ('BadProtocol', 'bad_protocol'),
                 ('Timeout', 'timeout'),
                 ('NoMoreMessages', 'no_more_messages'),
                 ('WrongEncryption', 'wrong_encryption'),
                 ('ResourceHandshakeFailure', 'resource_handshake'),
                 ('KeyNotDifficult', 'key_not_difficult'),
                 ('Bootstrap', 'bootstrap')]},
     None, None),
    (3, 'ChallengeSolution', 'base', True, True,
     [('solution', 'v')],
     {},
     {},
     None, None),
    (1001, 'Ping', 'p2p', True, False,
     [],
     {},
     {},
     None, None),
    (1002, 'Pong', 'p2p', True, False,
     [],
     {},
     {},
     None, None),
    (1003, 'GetPeers', 'p2p', True, False,
     [],
     {},
     {},
     None, None),
    (1004, 'Peers', 'p2p', True, False,
     [('peers', 'peers')],
     {},
     {},
     None, None),
    (1005, 'GetTasks', 'p2p', True, False,
     [],
     {},
     {},
     None, None),
    (1006, 'Tasks', 'p2p', True, True,
     [('tasks', 'headers')],
     {},
     {},
     None, None),
    (1007, 'RemoveTask', 'p2p', True, True,
     [('task_id', 'v')],
     {},
     {},
     None, None),
    (1008, 'GetResourcePeers', 'p2p', True, False,
     [],
     {},
     {},
     None, None),
    (1009, 'ResourcePeers', 'p2p', True, False,
     [('resource_peers', 'orlist')],
     {},
     {},
     None, None),
    (1010, 'Degree', 'p2p', True, False,
     [('degree', 'v')],
     {},
     {},
     None, None),
    (1011, 'Gossip', 'p2p', True, False,
     [('gossip', 'orlist')],
     {},
     {},
     None, None),
    (1012, 'StopGossip', 'p2p', True, False,
     [],
     {},
     {},
     None, None),
    (1013, 'LocRank', 'p2p', True, False,
     [('node_id', 'v'), ('loc_rank', 'v')],
     {},
     {},
     None, None),
    (1014, 'FindNode', 'p2p', True, False,
     [('node_key_id', 'v')],
     {},
     {},
     None, None),
    (1015, 'WantToStartTaskSession', 'p2p', True, True,
     [('node_info', 'node'), ('conn_id', 'v'), ('super_node_info', 'node')],
     {},
     {},
     None, None),
    (1016, 'SetTaskSession', 'p2p', True, True,
     [('key_id', 'v'),
      ('node_info', 'node'),
      ('conn_id', 'v'),
      ('super_node_info', 'node')],
     {},
     {},
     None, None),
    (1017, 'RemoveTaskContainer', 'p2p', True, True,
     [('remove_tasks', 'msgs')],
     {'remove_tasks': ('RemoveTask', False, True)},
     {},
     None, None),
    (2001, 'WantToComputeTask', 'tasks', True, True,
     [('perf_index', 'v'),
      ('cpu_usage', 'nonneg'),
      ('max_resource_size', 'v'),
      ('max_memory_size', 'v'),
      ('price', 'v'),
      ('num_subtasks', 'pos1'),
      ('concent_enabled', 'bool'),
      ('extra_data', 'v'),
      ('provider_public_key', 'v'),
      ('provider_ethereum_address', 'v'),
      ('task_header', 'header')],
     {},
     {},
     None, None),
    (2002, 'TaskToCompute', 'tasks', True, True,
     [('requestor_id', 'v'),
      ('requestor_public_key', 'v'),
      ('requestor_ethereum_public_key', 'v'),
      ('provider_id', 'v'),
      ('compute_task_def', 'ctd'),
      ('want_to_compute_task', 'msg'),
      ('package_hash', 'v'),
      ('size', 'int'),
      ('concent_enabled', 'bool'),
      ('price', 'int'),
      ('resources_options', 'v'),
      ('ethsig', 'v'),
      ('promissory_note_sig', 'psig'),
      ('concent_promissory_note_sig', 'psig')],
     {'want_to_compute_task': ('WantToComputeTask', False, False)},
     {},
     ['requestor'], []),
    (2003, 'CannotAssignTask', 'tasks', True, True,
     [('task_id', 'v'), ('reason', 'enum')],
     {},
     {'reason': [('NotMyTask', 'NotMyTask'),
                 ('NoMoreSubtasks', 'NoMoreSubtasks'),
                 ('TaskFinished', 'TaskFinished'),
                 ('ConcentDisabled', 'ConcentDisabled')]},
     None, None),
    (2004, 'ReportComputedTask', 'tasks', True, True,
     [('address', 'v'),
      ('node_info', 'v'),
      ('port', 'v'),
      ('key_id', 'v'),
      ('extra_data', 'v'),
      ('task_to_compute', 'msg'),
      ('size', 'v'),
      ('package_hash', 'v'),
      ('multihash', 'v'),
      ('secret', 'v'),
      ('options', 'v'),
      ('stats', 'stats')],
     {'task_to_compute': ('TaskToCompute', False, False)},
     {},
     ['provider'], ['task_to_compute']),
    (2010, 'SubtaskResultsAccepted', 'tasks', True, True,
     [('payment_ts', 'v'), ('report_computed_task', 'msg')],
     {'report_computed_task': ('ReportComputedTask', False, False)},
     {},
     ['requestor'], ['report_computed_task']),
    (2011, 'SubtaskResultsRejected', 'tasks', True, True,
     [('report_computed_task', 'msg'),
      ('force_get_task_result_failed', 'msg'),
      ('reason', 'enum')],
     {'force_get_task_result_failed': ('ForceGetTaskResultFailed',
                                       True,
                                       False),
      'report_computed_task': ('ReportComputedTask', False, False)},
     {'reason': [('VerificationNegative', 'Results verification negative'),
                 ('ConcentResourcesFailure',
                  'Concent could not retrieve resources to verify'),
                 ('ConcentVerificationNegative',
                  'Concent results verification negative'),
                 ('ForcedResourcesFailure',
                  'Concent reported failure to retrieve the resources to '
                  'verify'),
                 ('ResourcesFailure', 'Could not retrieve resources')]},
     ['requestor', 'concent'], ['report_computed_task']),
    (2015, 'TaskFailure', 'tasks', True, True,
     [('task_to_compute', 'msg'), ('err', 'v'), ('reason', 'enum')],
     {'task_to_compute': ('TaskToCompute', False, False)},
     {'reason': [('ComputationError', 'ComputationError'),
                 ('BudgetExceeded', 'BudgetExceeded'),
                 ('TimeExceeded', 'TimeExceeded')]},
     ['provider'], ['task_to_compute']),
    (2016, 'StartSessionResponse', 'tasks', True, True,
     [('conn_id', 'v')],
     {},
     {},
     None, None),
    (2026, 'CannotComputeTask', 'tasks', True, True,
     [('task_to_compute', 'msg'), ('reason', 'enum')],
     {'task_to_compute': ('TaskToCompute', False, False)},
     {'reason': [('CannotTakeWork', 'CannotTakeWork'),
                 ('WrongCTD', 'WrongCTD'),
                 ('WrongKey', 'WrongKey'),
                 ('WrongAddress', 'WrongAddress'),
                 ('WrongEnvironment', 'WrongEnvironment'),
                 ('NoSourceCode', 'NoSourceCode'),
                 ('WrongDockerImages', 'WrongDockerImages'),
                 ('ConcentRequired', 'ConcentRequired'),
                 ('ConcentDisabled', 'ConcentDisabled'),
                 ('InsufficientBalance', 'InsufficientBalance'),
                 ('InsufficientDeposit', 'InsufficientDeposit'),
                 ('TooShortDeposit', 'TooShortDeposit'),
                 ('PromissoryNoteMissing', 'PromissoryNoteMissing'),
                 ('OfferCancelled', 'OfferCancelled'),
                 ('ResourcesTooBig', 'ResourcesTooBig')]},
     ['provider'], ['task_to_compute']),
    (2027, 'SubtaskPayment', 'tasks', True, True,
     [('subtask_id', 'v'),
      ('reward', 'v'),
      ('transaction_id', 'v'),
      ('block_number', 'v')],
     {},
     {},
     None, None),
    (2028, 'SubtaskPaymentRequest', 'tasks', True, True,
     [('subtask_id', 'v')],
     {},
     {},
     None, None),
    (2029, 'AckReportComputedTask', 'tasks', True, True,
     [('report_computed_task', 'msg')],
     {'report_computed_task': ('ReportComputedTask', False, False)},
     {},
     ['requestor', 'concent'], ['report_computed_task']),
    (2030, 'RejectReportComputedTask', 'tasks', True, True,
     [('attached_task_to_compute', 'msg'),
      ('task_failure', 'msg'),
      ('cannot_compute_task', 'msg'),
      ('reason', 'enum')],
     {'attached_task_to_compute': ('TaskToCompute', True, False),
      'cannot_compute_task': ('CannotComputeTask', True, False),
      'task_failure': ('TaskFailure', True, False)},
     {'reason': [('SubtaskTimeLimitExceeded', 'SubtaskTimeLimitExceeded'),
                 ('GotMessageCannotComputeTask',
                  'GotMessageCannotComputeTask'),
                 ('GotMessageTaskFailure', 'GotMessageTaskFailure')]},
     ['requestor', 'concent'], ['attached_task_to_compute', 'task_failure', 'cannot_compute_task']),
    (3001, 'PushResource', 'resources', True, True,
     [('copies', 'v'), ('resource', 'v')],
     {},
     {},
     None, None),
    (3002, 'HasResource', 'resources', True, True,
     [('resource', 'v')],
     {},
     {},
     None, None),
    (3003, 'WantsResource', 'resources', True, True,
     [('resource', 'v')],
     {},
     {},
     None, None),
    (3004, 'PullResource', 'resources', True, True,
     [('resource', 'v')],
     {},
     {},
     None, None),
    (3005, 'PullAnswer', 'resources', True, True,
     [('resource', 'v'), ('has_resource', 'v')],
     {},
     {},
     None, None),
    (3008, 'ResourceHandshakeStart', 'resources', True, True,
     [('resource', 'v'), ('options', 'v')],
     {},
     {},
     None, None),
    (3009, 'ResourceHandshakeNonce', 'resources', True, True,
     [('nonce', 'v')],
     {},
     {},
     None, None),
    (3010, 'ResourceHandshakeVerdict', 'resources', True, True,
     [('accepted', 'v'), ('nonce', 'v')],
     {},
     {},
     None, None),
    (4000, 'ServiceRefused', 'concents', True, True,
     [('task_to_compute', 'msg'), ('reason', 'enum')],
     {'task_to_compute': ('TaskToCompute', True, False)},
     {'reason': [('TooSmallCommunicationPayment',
                  'TOO_SMALL_COMMUNICATION_PAYMENT'),
                 ('TooSmallRequestorDeposit',
                  'TOO_SMALL_REQUESTOR_DEPOSIT'),
                 ('TooSmallProviderDeposit', 'TOO_SMALL_PROVIDER_DEPOSIT'),
                 ('SystemOverloaded', 'SYSTEM_OVERLOADED'),
                 ('DuplicateRequest', 'DUPLICATE_REQUEST'),
                 ('InvalidRequest', 'REQUEST_FORMAT_OR_CONTENT_INVALID'),
                 ('ConcentDisabled',
                  'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK'),
                 ('UnsupportedProtocolVersion',
                  'UNSUPPORTED_PROTOCOL_VERSION'),
                 ('PriceNotPositive', 'PRICE_NOT_POSITIVE')]},
     ['concent'], ['task_to_compute']),
    (4001, 'ForceReportComputedTask', 'concents', True, True,
     [('report_computed_task', 'msg'), ('result_hash', 'v')],
     {'report_computed_task': ('ReportComputedTask', False, False)},
     {},
     ['provider', 'concent'], ['report_computed_task']),
    (4004, 'VerdictReportComputedTask', 'concents', True, True,
     [('force_report_computed_task', 'msg'),
      ('ack_report_computed_task', 'msg')],
     {'ack_report_computed_task': ('AckReportComputedTask', False, False),
      'force_report_computed_task': ('ForceReportComputedTask',
                                     False,
                                     False)},
     {},
     ['concent'], ['force_report_computed_task', 'ack_report_computed_task']),
    (4005, 'FileTransferToken', 'concents', True, True,
     [('subtask_id', 'v'),
      ('token_expiration_deadline', 'v'),
      ('storage_cluster_address', 'v'),
      ('authorized_client_public_key', 'v'),
      ('operation', 'enum'),
      ('files', 'files')],
     {},
     {'operation': [('upload', 'upload'), ('download', 'download')]},
     None, None),
    (4006, 'SubtaskResultsVerify', 'concents', True, True,
     [('subtask_results_rejected', 'msg'),
      ('concent_promissory_note_sig', 'psig')],
     {'subtask_results_rejected': ('SubtaskResultsRejected', False, False)},
     {},
     ['provider'], ['subtask_results_rejected']),
    (4007, 'AckSubtaskResultsVerify', 'concents', True, True,
     [('subtask_results_verify', 'msg'), ('file_transfer_token', 'msg')],
     {'file_transfer_token': ('FileTransferToken', False, False),
      'subtask_results_verify': ('SubtaskResultsVerify', False, False)},
     {},
     ['concent'], ['subtask_results_verify']),
    (4008, 'SubtaskResultsSettled', 'concents', True, True,
     [('origin', 'enum'), ('task_to_compute', 'msg')],
     {'task_to_compute': ('TaskToCompute', False, False)},
     {'origin': [('ResultsAcceptedTimeout', 'results_accepted_timeout'),
                 ('ResultsRejected', 'results_rejected')]},
     ['concent'], ['task_to_compute']),
    (4009, 'ForceGetTaskResult', 'concents', True, True,
     [('report_computed_task', 'msg')],
     {'report_computed_task': ('ReportComputedTask', False, False)},
     {},
     ['requestor'], ['report_computed_task']),
    (4010, 'AckForceGetTaskResult', 'concents', True, True,
     [('force_get_task_result', 'msg')],
     {'force_get_task_result': ('ForceGetTaskResult', False, False)},
     {},
     ['concent'], ['force_get_task_result']),
    (4011, 'ForceGetTaskResultFailed', 'concents', True, True,
     [('task_to_compute', 'msg')],
     {'task_to_compute': ('TaskToCompute', False, False)},
     {},
     ['concent'], ['task_to_compute']),
    (4012, 'ForceGetTaskResultRejected', 'concents', True, True,
     [('force_get_task_result', 'msg'), ('reason', 'enum')],
     {'force_get_task_result': ('ForceGetTaskResult', False, False)},
     {'reason': [('AcceptanceTimeLimitExceeded',
                  'acceptance_time_limit_exceeded')]},
     ['concent'], ['force_get_task_result']),
    (4013, 'ForceGetTaskResultUpload', 'concents', True, True,
     [('force_get_task_result', 'msg'), ('file_transfer_token', 'msg')],
     {'file_transfer_token': ('FileTransferToken', False, False),
      'force_get_task_result': ('ForceGetTaskResult', False, False)},
     {},
     ['concent'], ['force_get_task_result']),
    (4014, 'ForceGetTaskResultDownload', 'concents', True, True,
     [('force_get_task_result', 'msg'), ('file_transfer_token', 'msg')],
     {'file_transfer_token': ('FileTransferToken', False, False),
      'force_get_task_result': ('ForceGetTaskResult', False, False)},
     {},
     ['concent'], ['force_get_task_result']),
    (4015, 'ForceSubtaskResults', 'concents', True, True,
     [('ack_report_computed_task', 'msg')],
     {'ack_report_computed_task': ('AckReportComputedTask', False, False)},
     {},
     ['provider', 'concent'], ['ack_report_computed_task']),
    (4016, 'ForceSubtaskResultsResponse', 'concents', True, True,
     [('subtask_results_accepted', 'msg'),
      ('subtask_results_rejected', 'msg')],
     {'subtask_results_accepted': ('SubtaskResultsAccepted', True, False),
      'subtask_results_rejected': ('SubtaskResultsRejected', True, False)},
     {},
     ['concent'], ['subtask_results_accepted', 'subtask_results_rejected']),
    (4017, 'ForceSubtaskResultsRejected', 'concents', True, True,
     [('force_subtask_results', 'msg'), ('reason', 'enum')],
     {'force_subtask_results': ('ForceSubtaskResults', False, False)},
     {'reason': [('RequestPremature',
                  'premature: still within the verification timeout'),
                 ('RequestTooLate',
                  'too late: past the forced communication timeout')]},
     ['concent'], ['force_subtask_results']),
    (4018, 'ForcePayment', 'concents', True, True,
     [('subtask_results_accepted_list', 'msgs')],
     {'subtask_results_accepted_list': ('SubtaskResultsAccepted',
                                        False,
                                        True)},
     {},
     None, None),
    (4019, 'ForcePaymentCommitted', 'concents', True, True,
     [('payment_ts', 'v'),
      ('task_owner_key', 'v'),
      ('provider_eth_account', 'v'),
      ('amount_paid', 'v'),
      ('recipient_type', 'enum'),
      ('amount_pending', 'v')],
     {},
     {'recipient_type': [('Requestor', 'requestor'),
                         ('Provider', 'provider')]},
     None, None),
    (4020, 'ForcePaymentRejected', 'concents', True, True,
     [('force_payment', 'msg'), ('reason', 'enum')],
     {'force_payment': ('ForcePayment', False, False)},
     {'reason': [('NoUnsettledTasksFound', 'no unsettled tasks found'),
                 ('TimestampError',
                  'timestamp error - subtasks are not overdue yet')]},
     None, None),
    (4021, 'ForceReportComputedTaskResponse', 'concents', True, True,
     [('reason', 'enum'),
      ('ack_report_computed_task', 'msg'),
      ('reject_report_computed_task', 'msg')],
     {'ack_report_computed_task': ('AckReportComputedTask', True, False),
      'reject_report_computed_task': ('RejectReportComputedTask',
                                      True,
                                      False)},
     {'reason': [('AckFromRequestor', 'ack_from_requestor'),
                 ('RejectFromRequestor', 'reject_from_requestor'),
                 ('SubtaskTimeout', 'subtask_timeout'),
                 ('ConcentAck', 'concent_ack')]},
     ['concent'], ['ack_report_computed_task', 'reject_report_computed_task']),
    (4022, 'ClientAuthorization', 'concents', True, True,
     [('client_public_key', 'v')],
     {},
     {},
     None, None),
]

TYPES = {row[0]: MsgDef(*row) for row in _ROWS}
BY_NAME = {d.name: d for d in TYPES.values()}
